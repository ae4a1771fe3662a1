"""Verifiable secret sharing (Pedersen and Rabin): deals, responses, justifications, certification."""
from lib import *
from lib import State
from norm import as_int, B, p_atom

MODS = {'pedersen': ('share::vss::pedersen::vss::', 'status'), 'rabin': ('share::vss::rabin::vss::', 'approved')}
F = lambda t, *ns: fld(t, *ns)


def int_c(n):
    return mk('const', 'int', n)


def num_eq(cf, a, b):
    return a is b or has_eq(cf, a, b)


def need_ok(ctx, r, fn):
    o = r.oks()
    if not o:
        ctx.bad('exits', fn, 'no success exit')
    return o


def agg_of(t):
    """payload of an Option<Aggregator> field, looking through in-place updates"""
    if t.op == 'upd' and dict(t.a[1]).get('0') is not None:
        return dict(t.a[1])['0']
    if t.op == 'adt' and t.a[1] == 'Some':
        return dict(t.a[2])['0']
    if t.op == 'vf':
        return t
    return C('vf', t, 'Some', '0')


def agg_view(t):
    """canonical name of the aggregator inside an Option field"""
    return t


def deref(N, t):
    return t


def get(t, n):
    """field of a canonical record, looking through updates"""
    if t.op == 'upd':
        d = dict(t.a[1])
        if n in d:
            return d[n]
        return get(t.a[0], n)
    return fld(t, n)


# ---------------------------------------------------------------- V01
def dh_key(suite, sec, pub, ctxv):
    return C('vf', C('call', 'Dh::hkdf', enc(C('call', 'Dh::dh_exchange', suite, sec, pub)), ctxv, C('adt', 'Option', 'None', ())), 'Ok', '0')


def opt_some(x):
    return C('adt', 'Option', 'Some', (('0', x),))


def field_alts(t, names, facts=frozenset()):
    """(value, facts) of a field path, expanding joins on the way down"""
    out = [(leaf, g) for leaf, g in value_alts(t, facts)]
    for n in names:
        out = [x for leaf, g in out for x in value_alts(agg_of(leaf) if n == '?' else get_raw(leaf, n), g)]
    return out


def get_raw(t, n):
    if t.op == 'upd':
        d = dict(t.a[1])
        return d[n] if n in d else get_raw(t.a[0], n)
    if t.op == 'adt':
        d = dict(t.a[2])
        if n in d:
            return d[n]
    return mk('field', t, n)


def find_call(t, name):
    return [x for x in subterms_np(t) if x.op == 'call' and x.a[0] == name]


def V01(ctx):
    for m, (pre, _) in MODS.items():
        fn = m + '::Verifier::decrypt_deal'
        r = ctx.run(pre + 'Verifier::decrypt_deal')
        S, e0 = r.p(1), r.p(2)
        ver = C('is', C('call', SCH_V, F(S, 'suite'), F(S, 'dealer'), enc(F(e0, 'dhkey')), F(e0, 'signature')), 'Ok')
        for e in need_ok(ctx, r, fn):
            ctx.ob('deal.author', fn, (ver, True) in e.cf,
                   'a deal is decrypted successfully although the dealer\'s signature over the ephemeral key was not verified')
            key_in = enc(C('call', 'Dh::dh_exchange', F(S, 'suite'), F(S, 'longterm'), F(e0, 'dhkey')))
            ok = False
            for d in find_call(e.pay, 'Dh::aes_decrypt'):
                key, nonce, ct, aad = d.a[1:5]
                ok = ok or (hkdf_of(key, key_in, F(S, 'hkdf_context')) and nonce is F(e0, 'nonce') and ct is F(e0, 'cipher') and aad is opt_some(F(S, 'hkdf_context')))
            ctx.ob('deal.opened', fn, ok, 'the deal is not the plaintext of the received ciphertext, opened under the key agreed between the own long-term key and the ephemeral key, bound to the session context')
        # no other path hands out a deal
        fn = m + '::Dealer::encrypted_deal'
        r = ctx.run(pre + 'Dealer::encrypted_deal')
        S, i = r.p(1), r.p(2)
        for e in need_ok(ctx, r, fn):
            dk = F(e.pay, 'dhkey')
            l = r.N.pt(dk)
            k = None
            if list(l) == [B] and len(l[B]) == 1:
                (mon, co), = l[B].items()
                if co == 1 and len(mon) == 1 and fresh(mon[0], F(S, 'suite')):
                    k = mon[0]
            ctx.ob('deal.ephemeral', fn, k is not None, 'the ephemeral key is not one fresh scalar of the suite\'s random stream times the base point')
            sg = F(e.pay, 'signature')
            want = C('vf', C('call', SCH_S, F(S, 'suite'), F(S, 'long'), enc(dk)), 'Ok', '0')
            ctx.ob('deal.signed', fn, sg is want, 'the ephemeral key is not signed with the dealer\'s long-term key')
            ok = False
            if k is not None:
                key_in = enc(C('call', 'Dh::dh_exchange', F(S, 'suite'), k, C('index', F(S, 'verifiers'), i)))
                ci = F(e.pay, 'cipher')
                if ci.op == 'vf' and ci.a[0].op == 'call' and ci.a[0].a[0] == 'Dh::aes_encrypt':
                    key, nonce, pt, aad = ci.a[0].a[1:5]
                    deal = C('index', F(S, 'deals'), i)
                    ok = hkdf_of(key, key_in, F(S, 'hkdf_context')) and nonce is F(e.pay, 'nonce') and aad is opt_some(F(S, 'hkdf_context')) and ser_of(pt) is deal
            ctx.ob('deal.sealed', fn, ok, 'the ciphertext is not the deal of this verifier, sealed under the key agreed with this verifier\'s public key and bound to the session context')
            ctx.ob('deal.index', fn, (C('has', F(S, 'verifiers'), i), True) in e.cf or (C('lt', i, C('call', 'len', F(S, 'verifiers'))), True) in e.cf, 'a deal for a verifier outside the list is produced')
        fn = m + '::Dealer::encrypted_deals'
        r = ctx.run(pre + 'Dealer::encrypted_deals', opaque=PROTO | {pre + 'Dealer::encrypted_deal'})
        S = r.p(1)
        for e in need_ok(ctx, r, fn):
            cs = [x for x in all_sub(e.pay) if x.op == 'call' and x.a[0] == pre + 'Dealer::encrypted_deal']
            ok = bool(cs) and all(x.a[1] is S and x.a[2].op == 'elem' and range_over(x.a[2].a[0], F(S, 'verifiers'), F(S, 'deals')) for x in cs)
            ctx.ob('deal.each', fn, ok, 'the list does not hold the encrypted deal of every verifier index in order')
        for ctor, k in (('new_dealer', None), ('new_verifier', 3)):
            r = ctx.run(pre + ctor)
            key = r.p(3) if k else r.N.fl({B: {(r.p(2),): 1}})
            for e in need_ok(ctx, r, m + '::' + ctor):
                ctx.ob('deal.context', m + '::' + ctor, context_ok(r, m, F(e.pay, 'hkdf_context'), key, r.p(4)),
                       'the context that deals are sealed under does not cover the dealer and every verifier')


def all_sub(t, seen=None):
    """sub-terms including the alternatives of phis"""
    seen = seen if seen is not None else set()
    out = []
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'phi':
            todo += list(PHI_ALTS.get(x, ()))
        st = list(x.a)
        while st:
            y = st.pop()
            if isinstance(y, T):
                todo.append(y)
            elif isinstance(y, tuple):
                st += list(y)
    return out


def range_over(c, *lists):
    if c in lists:
        return True
    if c.op == 'adt' and 'Range' in c.a[0]:
        d = dict(c.a[2])
        return d.get('start') is int_c(0) and any(d.get('end') is C('call', 'len', l) for l in lists)
    return False


def hkdf_of(key, key_in, cx):
    if key.op == 'vf':
        key = key.a[0]
    return key.op == 'call' and key.a[0] == 'Dh::hkdf' and key.a[1] is key_in and key.a[2] is cx


def ser_of(t):
    if t.op == 'vf':
        t = t.a[0]
    if t.op == 'call' and t.a[0] == 'bincode::serialize':
        return t.a[1]
    if t.op == 'enc':
        return t.a[0]
    return None


def fresh(t, suite):
    from sign import is_fresh_pick
    return is_fresh_pick(t, suite)


# ---------------------------------------------------------------- V02
def share_eq(r, m, S, d, h_verifiers):
    """the share equation of deal d"""
    ev = C('field', C('call', 'share::poly::PubPoly::eval', C('adt', 'PubPoly', 'PubPoly', (('g', F(S, 'suite')), ('b', C('adt', 'Option', 'None', ())), ('commits', F(d, 'commitments')))), F(d, 'sec_share', 'i')), 'v')
    terms = [(B, {(F(d, 'sec_share', 'v'),): 1}), (ev, {(): -1})]
    return ev, terms


def has_share_eq(cf, m, S, d):
    for f, v in cf:
        if not v or f.op != 'eqp':
            continue
        l = {b: dict(p) for b, p in f.a[0]} if f.a and isinstance(f.a[0], tuple) else None
        if l is None:
            continue
        ev = [b for b in l if b.op == 'field' and b.a[1] == 'v' and b.a[0].op == 'call' and b.a[0].a[0] == 'share::poly::PubPoly::eval']
        if len(ev) != 1:
            continue
        call = ev[0].a[0]
        poly = call.a[1]
        if call.a[2] is not F(d, 'sec_share', 'i') or fld(poly, 'commits') is not F(d, 'commitments') or fld(poly, 'b').a[1] != 'None':
            continue
        rest = {b: p for b, p in l.items() if b is not ev[0]}
        c = l[ev[0]]
        if set(c) != {()} or abs(c[()]) != 1:
            continue
        s = -c[()]
        if rest.get(B) != {(F(d, 'sec_share', 'v'),): s}:
            continue
        other = {b: p for b, p in rest.items() if b is not B}
        if m == 'pedersen':
            if not other:
                return True
            continue
        if len(other) == 1:
            (h, p), = other.items()
            # H: a point picked from an XOF seeded with the encoded verifiers
            if p == {(F(d, 'rnd_share', 'v'),): s} and h.op == 'call' and h.a[0] == 'Point::pick' and mentions(h, C('rep', F(S, 'verifiers'), (enc(C('elem', F(S, 'verifiers'), 'L')),))):
                return True
    return False


def deal_valid(cf, m, S, d, sid, commits, t, index_bound=True):
    """list of (name, holds) for the requirements on an accepted deal"""
    dt = F(d, 't')
    n = C('call', 'len', F(S, 'verifiers'))
    iq = ineqs(cf)
    out = [('threshold of at least 2', leq((dt, -1), (None, 2)) in iq),
           ('threshold of at most the number of verifiers', leq((dt, 1), (n, -1)) in iq),
           ('as many commitments as the threshold', num_eq(cf, C('call', 'len', F(d, 'commitments')), dt)),
           ('share index within the verifiers', (C('has', F(S, 'verifiers'), F(d, 'sec_share', 'i')), True) in cf or leq((F(d, 'sec_share', 'i'), 1), (n, -1), (None, 1)) in iq),
           ('share matches the commitments', has_share_eq(cf, m, S, d))]
    if sid is not None:
        out.append(('session identifier of this session', num_eq(cf, sid, F(d, 'session_id'))))
    if commits is not None:
        out.append(('commitments of this session', num_eq(cf, commits, F(d, 'commitments'))))
    if t is not None:
        out.append(('threshold of this session', num_eq(cf, t, dt)))
    if m == 'rabin':
        out.append(('both shares have the same index', num_eq(cf, F(d, 'sec_share', 'i'), F(d, 'rnd_share', 'i'))))
    return out


def V02(ctx):
    for m, (pre, _) in MODS.items():
        fn = m + '::Aggregator::verify_deal'
        S0 = mk('param', 1, 'self')
        known = mk('istest', mk('field', S0, 'deal'), 'Some')
        # a later deal of a session whose deal is known
        r = ctx.run(pre + 'Aggregator::verify_deal', assume=[(known, True)])
        S, d, inc = r.p(1), r.p(2), r.p(3)
        for e in need_ok(ctx, r, fn):
            for name, ok in deal_valid(e.cf, m, S, d, F(S, 'sid'), F(S, 'commits'), F(S, 't') if m == 'pedersen' else None):
                ctx.ob('deal.known', fn, ok, 'a deal is accepted without the check: ' + name)
            ctx.ob('deal.once', fn, (inc, False) in e.cf, 'a second deal is included')
        for e in r.exits:
            for f in ('deal', 'sid', 'commits', 't'):
                ctx.ob('deal.keeps', fn + '.' + f, e.final(S, f) is F(S, f), 'checking a later deal changes the %s of the session' % f)
        # the first deal of a session
        r = ctx.run(pre + 'Aggregator::verify_deal', assume=[(known, False)])
        for e in need_ok(ctx, r, fn):
            for name, ok in deal_valid(e.cf, m, S, d, None, None, None):
                ctx.ob('deal.first', fn, ok, 'a first deal is accepted without the check: ' + name)
            ctx.ob('deal.adopts', fn, e.final(S, 'deal') is opt_some(d) and e.final(S, 'sid') is F(d, 'session_id') and e.final(S, 'commits') is F(d, 'commitments'),
                   'the accepted first deal, its session identifier and its commitments are not what is kept')
            if m == 'pedersen':
                tf = e.final_raw(S, 't')
                ctx.ob('deal.threshold', fn, num_eq(e.cf, r.cv(tf), F(d, 't')), 'a first deal is accepted whose threshold differs from the session\'s')
                for leaf, g in value_alts(tf):
                    g = canon_facts(r.N, g | e.facts)
                    l = r.cv(leaf)
                    ctx.ob('deal.threshold-preset', fn, l is F(S, 't') or (l is F(d, 't') and (has_eq(g, F(S, 't'), int_c(0)) or leq((F(S, 't'), 1)) in ineqs(g) or has_eq(g, F(S, 't'), F(d, 't')))),
                           'the dealer\'s threshold overrides one that was set in advance')
        # the response of a verifier
        fn = m + '::Verifier::process_encrypted_deal'
        fld_ok = MODS[m][1]
        agg = mk('istest', mk('field', S0, 'aggregator'), 'Some')
        possible = 0
        for has_agg in (True, False):
            r = ctx.run(pre + 'Verifier::process_encrypted_deal', assume=[(agg, has_agg)])
            S = r.p(1)
            oks = r.oks()
            possible += len(oks)
            ok_n = 0
            for e in oks:
                for x in e.rows():
                    ok_n += approval(ctx, r, fn, x, m, S, fld_ok, has_agg)
            if oks:
                ctx.ob('approval.possible', fn, ok_n > 0, 'no deal is ever approved')
        if not possible:
            ctx.bad('exits', fn, 'no success exit')


def approval(ctx, r, fn, e, m, S, fld_ok, has_agg):
    d = deal_term(e, r)
    ctx.ob('approval.deal', fn, d is not None, 'the response is not about the decrypted deal')
    if d is None:
        return 0
    V = agg_of(F(S, 'aggregator')) if has_agg else S
    n = 0
    for leaf, g in value_alts(F(e.pay_raw, fld_ok), e.facts):
        s2 = r.an.assume(State(e.st.mem, e.facts | g, e.st.vac), leaf, True)
        if s2 is None:
            continue
        n += 1
        cf = canon_facts(r.N, s2.facts)
        for name, ok in deal_valid_any(cf, m, V, S, d):
            ctx.ob('approval.valid', fn, ok, 'a deal is approved without the check: ' + name)
        ctx.ob('approval.own-index', fn, num_eq(cf, F(d, 'sec_share', 'i'), F(S, 'index')), 'a deal holding another verifier\'s share is approved')
    sid = F(e.pay, 'session_id')
    ctx.ob('response.session', fn, sid is sid_term(F(S, 'dealer'), F(S, 'verifiers'), F(d, 'commitments'), F(d, 't')), 'the session identifier of the response is not recomputed from dealer, verifiers, commitments and threshold')
    ctx.ob('response.index', fn, F(e.pay, 'index') is F(S, 'index'), 'the response does not carry the own index')
    ctx.ob('response.signed', fn, signed_by(F(e.pay, 'signature'), F(S, 'longterm'), response_hash(F(e.pay, 'session_id'), F(e.pay, 'index'), F(e.pay, fld_ok))),
           'the response is not signed, over session, index and verdict, with the own long-term key')
    ag = agg_of(e.final(S, 'aggregator'))
    rs = get(ag, 'responses')
    ok = rs.op == 'mut' and rs.a[0] == 'insert' and rs.a[3] is F(e.pay, 'index') and same_rec(rs.a[4], e.pay)
    ctx.ob('response.recorded', fn, ok, 'the own response is not recorded')
    return n


def same_rec(a, b):
    return a is b or (a.op == 'adt' and b.op == 'adt' and a.a[1:] == b.a[1:])


def deal_valid_any(cf, m, V, S, d):
    """approval: checks against the verifier's own or its aggregator's participant list"""
    best = None
    for VV in (V, S):
        res = deal_valid(cf, m, VV, d, None, None, None)
        if best is None or sum(ok for _, ok in res) > sum(ok for _, ok in best):
            best = res
    return best


def deal_term(e, r):
    """the decrypted deal the response speaks of"""
    for x in subterms_np(e.pay):
        if x.op == 'vf' and x.a[0].op == 'call' and x.a[0].a[0] == 'bincode::deserialize':
            return x
    return None


def num32(x):
    return C('num', 'u32', x)


def rep_enc(l):
    return C('rep', l, (enc(C('elem', l, 'L')),))


def sid_term(dealer, verifiers, commitments, t):
    return C('hash', bytes_of(enc(dealer), rep_enc(verifiers), rep_enc(commitments), mk('num', 'u32', t)))


def response_hash(sid, index, status):
    return C('hash', bytes_of(mk('const', 'str', 'response'), sid, mk('num', 'u32', index), mk('num', 'u32', as_int(status))))


def signed_by(sg, key, msg):
    if sg.op == 'vf':
        sg = sg.a[0]
    return sg.op == 'call' and sg.a[0] == SCH_S and sg.a[2] is key and covers(sg.a[3], msg)


def covers(have, want):
    """the digest covers the same components"""
    if have is want:
        return True
    if have.op != 'hash' or want.op != 'hash':
        return False
    hp = have.a[0].a
    # every non-constant component of the wanted digest is hashed, in an unambiguous position
    hv = [norm_part(p) for p in hp if not is_tag(p)]
    wv = [norm_part(p) for p in want.a[0].a if not is_tag(p)]
    return sorted(map(id, hv)) == sorted(map(id, wv))


def is_tag(p):
    return p.op == 'const'


def norm_part(p):
    return p.a[1] if p.op == 'num' else p


# ---------------------------------------------------------------- V03
def response_facts(ctx, fn, cf, S, A, rsp, fld_ok, suite=None):
    idx = F(rsp, 'index')
    vs = F(A, 'verifiers')
    ver = [f.a[0] for f, v in cf if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == SCH_V]
    want = response_hash(F(rsp, 'session_id'), idx, F(rsp, fld_ok))
    ctx.ob('response.author', fn, any(x.a[2] is C('index', vs, idx) and covers(x.a[3], want) and x.a[4] is F(rsp, 'signature') for x in ver),
           'a response is accepted without verifying its signature, over session, index and verdict, under the key of the verifier it claims')
    ctx.ob('response.index', fn, (C('has', vs, idx), True) in cf or leq((idx, 1), (C('call', 'len', vs), -1), (None, 1)) in ineqs(cf), 'a response is accepted whose index is not that of a verifier')
    ctx.ob('response.session', fn, num_eq(cf, F(rsp, 'session_id'), F(A, 'sid')), 'a response of another session is accepted')
    ctx.ob('response.once', fn, (C('has', F(A, 'responses'), idx), False) in cf, 'a second response of the same verifier is accepted')


def V03(ctx):
    for m, (pre, fld_ok) in MODS.items():
        names = ['Verifier::process_response', 'Dealer::process_response', 'Aggregator::process_response' if m == 'pedersen' else 'Aggregator::verify_response']
        for nm in names:
            fn = m + '::' + nm
            raw = mk('param', 1, 'self')
            holder = nm.split('::')[0]
            a_raw = raw if holder == 'Aggregator' else mk('field', raw, 'aggregator')
            if holder == 'Verifier':
                r0 = ctx.run(pre + nm)
                a_raw = r0.an.payload(a_raw, 'Some')
            kw = {}
            if m == 'pedersen':
                kw = {'assume': [(mk('call', 'is_empty', mk('field', a_raw, 'sid')), False), (mk('eq', *order(mk('call', 'len', mk('field', a_raw, 'sid')), int_c(0))), False)]}
            r = ctx.run(pre + nm, **kw)
            S, rsp = r.p(1), r.p(2)
            A = r.cv(a_raw)
            for e in need_ok(ctx, r, fn):
                response_facts(ctx, fn, e.cf, S, A, rsp, fld_ok)
                rs = final_responses(e, S, holder)
                ok = rs.op == 'mut' and rs.a[0] == 'insert' and rs.a[2] is F(A, 'responses') and rs.a[3] is F(rsp, 'index') and same_as(rs.a[4], rsp)
                ctx.ob('response.stored', fn, ok, 'the accepted response is not the one recorded for that verifier')
            if holder != 'Dealer':
                for e in r.errs():
                    ctx.ob('response.reject-clean', fn, final_responses(e, S, holder) is F(A, 'responses'), 'a rejected response changes the recorded responses')
            if holder == 'Dealer':
                for e in r.oks():
                    st = F(rsp, fld_ok)
                    for leaf, g in value_alts(e.pay_raw, e.facts):
                        cf = canon_facts(r.N, g)
                        l = r.cv(leaf)
                        if l.op == 'adt' and l.a[1] == 'None':
                            ctx.ob('justify.none', fn, (st, True) in cf, 'a complaint is not answered with a justification')
                            continue
                        ctx.ob('justify.only', fn, (st, False) in cf, 'a share is revealed although the response is no complaint')
                        j = dict(l.a[2])['0'] if l.op == 'adt' else None
                        ok = j is not None and get(j, 'index') is F(rsp, 'index') and get(j, 'session_id') is F(S, 'session_id') and get(j, 'deal') is C('index', F(S, 'deals'), F(rsp, 'index'))
                        ctx.ob('justify.deal', fn, ok, 'the justification does not reveal exactly the deal of the complaining verifier')
                        ok = False
                        if j is not None:
                            sg = get(j, 'signature')
                            sg = sg.a[0] if sg.op == 'vf' else sg
                            if sg.op == 'call' and sg.a[0] == SCH_S and sg.a[2] is F(S, 'long'):
                                ps = [norm_part(p) for p in sg.a[3].a[0].a] if sg.a[3].op == 'hash' else []
                                dl = [x for p in ps for x in subterms_np(p)]
                                ok = get(j, 'session_id') in ps and get(j, 'index') in ps and get(j, 'deal') in dl
                        ctx.ob('justify.signed', fn, ok, 'the justification is not signed, over session, index and deal, with the dealer\'s long-term key')


def same_as(a, b):
    """a is b, or a record holding every field of b"""
    return a is b or (a.op == 'upd' and a.a[0] is b and not a.a[1])


def order(a, b):
    return (a, b) if a.id < b.id else (b, a)


def final_responses(e, S, holder):
    if holder == 'Aggregator':
        return e.final(S, 'responses')
    if holder == 'Dealer':
        return get(e.final(S, 'aggregator'), 'responses')
    return get(agg_of(e.final(S, 'aggregator')), 'responses')


# ---------------------------------------------------------------- V04
def V04(ctx):
    for m, (pre, fld_ok) in MODS.items():
        fn = m + '::Verifier::process_justification'
        r = ctx.run(pre + 'Verifier::process_justification')
        S, j = r.p(1), r.p(2)
        A0 = r.cv(r.an.payload(mk('field', mk('param', 1, 'self'), 'aggregator'), 'Some'))
        idx = F(j, 'index')
        d = F(j, 'deal')
        resp = C('index', F(A0, 'responses'), idx)
        for e in need_ok(ctx, r, fn):
            cf = e.cf
            ctx.ob('just.complaint', fn, (C('has', F(A0, 'responses'), idx), True) in cf and (F(resp, fld_ok), False) in cf,
                   'a justification is accepted although no complaint of that verifier is recorded')
            ctx.ob('just.index', fn, num_eq(cf, F(d, 'sec_share', 'i'), idx), 'a justification is accepted whose share is not the one of the complaining verifier')
            ctx.ob('just.own-deal', fn, (C('is', F(A0, 'deal'), 'Some'), True) in cf, 'a justification is accepted before a deal of the session is known')
            for name, ok in deal_valid(cf, m, A0, d, F(A0, 'sid'), F(A0, 'commits'), F(A0, 't') if m == 'pedersen' else None):
                ctx.ob('just.valid', fn, ok, 'a justification is accepted without the check: ' + name)
            ag = agg_of(e.final(S, 'aggregator'))
            rs = get(ag, 'responses')
            ok = rs.op == 'mut' and rs.a[0] in ('insert', 'store') and len(rs.a) == 5 and rs.a[2] is F(A0, 'responses') and rs.a[3] is idx
            st = get(rs.a[4], fld_ok) if ok else None
            ctx.ob('just.approval', fn, ok and st.op == 'const' and st.a[1] in (1, True), 'an accepted justification does not turn the complaint into an approval')
            # the own deal is replaced exactly when the own complaint was justified
            raw = e.final_raw(S, 'aggregator')
            dl = get(agg_of(raw), 'deal') if raw.op in ('upd', 'adt') else None
            ok = dl is not None
            if ok:
                kinds = set()
                for leaf, g in value_alts(dl, e.facts):
                    c = r.cv(leaf)
                    g = canon_facts(r.N, g)
                    own = num_eq(g, idx, F(S, 'index')) or num_eq(g, F(d, 'sec_share', 'i'), F(S, 'index'))
                    other = (eq(idx, F(S, 'index')), False) in g or (eq(F(d, 'sec_share', 'i'), F(S, 'index')), False) in g
                    if c is opt_some(d):
                        kinds.add('new')
                        ok = ok and own
                    elif c is F(A0, 'deal'):
                        kinds.add('old')
                        ok = ok and other
                    else:
                        ok = False
                ok = ok and kinds == {'new', 'old'}
            ctx.ob('just.replaces', fn, ok, 'the justified deal does not replace the own deal exactly when the own complaint was justified')
        for e in r.errs():
            v = e.final_raw(S, 'aggregator')
            ok = True
            if r.cv(v) is not F(S, 'aggregator'):
                for leaf, g in field_alts(v, ['?', 'responses'], e.facts):
                    c = r.cv(leaf)
                    while c.op == 'mut' and c.a[0] in ('insert', 'store') and len(c.a) == 5:
                        st = get(c.a[4], fld_ok)
                        if not (st is F(resp, fld_ok) or (st.op == 'const' and st.a[1] in (0, False))):
                            ok = False
                        c = c.a[2]
                    if c is not F(A0, 'responses'):
                        ok = False
                if any(r.cv(x) is not F(A0, 'deal') for x, _ in field_alts(v, ['?', 'deal'])):
                    ok = False
            ctx.ob('just.reject', fn, ok, 'a rejected justification is recorded as an approval or replaces the deal')
        # a justification that does not verify marks the dealer
        n = 0
        for e in r.errs():
            v = e.final_raw(S, 'aggregator')
            if r.cv(v) is not F(S, 'aggregator') and any(r.cv(x).op == 'const' and r.cv(x).a[1] in (1, True) for x, _ in field_alts(v, ['?', 'bad_dealer'])):
                n += 1
        ctx.ob('just.bad-dealer', fn, n > 0, 'a justification that does not verify never marks the dealer as bad')
        fn2 = m + '::Aggregator::verify_justification'
        if ctx.P.find(pre + 'Aggregator::verify_justification') is not None:
            r = ctx.run(pre + 'Aggregator::verify_justification')
            S, j = r.p(1), r.p(2)
            for e in r.errs():
                bd = e.final_raw(S, 'bad_dealer')
                for leaf, g in value_alts(bd, e.facts):
                    cf = canon_facts(r.N, g | e.facts)
                    late = (C('is', F(S, 'deal'), 'Some'), True) in cf and (F(C('index', F(S, 'responses'), F(j, 'index')), fld_ok), False) in cf
                    c = r.cv(leaf)
                    if late:
                        ctx.ob('just.bad-dealer', fn2, c.op == 'const' and c.a[1] in (1, True) or r.an.assume(State(e.st.mem, e.facts | g, e.st.vac), leaf, False) is None, 'a justification of a recorded complaint that does not verify does not mark the dealer as bad')


# ---------------------------------------------------------------- V05
def is_status(f, fld_ok, resps, idx=None):
    """f is the verdict field of a recorded response"""
    if f.op != 'field' or f.a[1] != fld_ok:
        return False
    b = f.a[0]
    if b.op == 'vf':
        b = b.a[0]
    if b.op == 'field' and b.a[1] == '1':
        b = b.a[0]
    return b.op in ('index', 'elem', 'get') and b.a[0] in (resps, C('call', 'HashMap::values', resps), C('call', 'values', resps))


def cert_cases(ctx, r, fn, S, fld_ok, cases):
    resps, vs = F(S, 'responses'), F(S, 'verifiers')
    n = C('call', 'len', vs)
    t = F(S, 't')
    if not cases:
        ctx.bad('cert', fn, 'the predicate is never true')
    for cf, raw in cases:
        iq = ineqs(cf)
        ctx.ob('cert.dealer', fn, (F(S, 'bad_dealer'), False) in cf, 'a deal is certified although its dealer was found to be malicious')
        phis = {s for f, v in raw for s in subterms_np(f) if s.op == 'phi' or (s.op == 'call' and s.a[0] == 'len')}
        cnt = [(s, r.cv(s), counter(r, s)) for s in phis]
        cnt = [(s, c, k) for s, c, k in cnt if k]
        appr = [c for s, c, k in cnt if all(any(v and is_status(f, fld_ok, resps) for f, v in g) for g in k.incs)]
        ctx.ob('cert.approvals', fn, any(leq((t, 1), (c, -1)) in iq for c in appr), 'a deal is certified without at least t recorded approvals')
        # absent: does not count only where the response is recorded
        # recorded: counts only where the response is recorded, each once
        recd = [c for s, c, k in cnt if all(any(v and f.op == 'has' and f.a[0] is resps for f, v in g) for g in k.incs) and covers_all(k, vs)]
        absent = [c for s, c, k in cnt if k.complete(raw) and all(any(v and f.op == 'has' and f.a[0] is resps for f, v in g) for g in k.keeps) and covers_all(k, vs)]
        present = any(leq((c, 1)) in iq for c in absent) or any(leq((n, 1), (c, -1)) in iq for c in recd) or disj_holds(cf, lambda fs: any(v and f.op == 'has' and f.a[0] is resps and each(f.a[1], vs) for f, v in fs))
        late = any(leq((c, 1), (n, -1), (t, 1)) in iq for c in absent) or any(leq((t, 1), (c, -1)) in iq for c in recd)
        if 'timeout' in fields_of(ctx, r):
            tm = F(S, 'timeout')
            ctx.ob('cert.absent', fn, present or ((tm, True) in cf and late),
                   'a deal is certified although responses are missing before the timeout, or more than n - t of them after it')
            nc = disj_holds(cf, lambda fs: any((v and is_status(f, fld_ok, resps) and has_each(f)) or (not v and f.op == 'has' and f.a[0] is resps and each(f.a[1], vs)) for f, v in fs))
            cplain = [c for s, c, k in cnt if k.complete(raw) and all(any((v and is_status(f, fld_ok, resps)) or (not v and f.op == 'has' and f.a[0] is resps) for f, v in g) for g in k.keeps)]
            ctx.ob('cert.complaints', fn, nc or any(leq((c, 1)) in iq for c in cplain), 'a deal is certified although a complaint is not justified')
        else:
            ctx.ob('cert.absent', fn, present, 'a deal is certified although responses are missing')


def fields_of(ctx, r):
    return {'timeout'} if 'pedersen' in r.body.clean else set()


def each(t, vs):
    return t.op == 'elem' and isinstance(t.a[1], tuple) and t.a[1] and t.a[1][0] == 'each' and range_over(t.a[0], vs)


def has_each(f):
    return any(x.op == 'elem' and isinstance(x.a[1], tuple) and x.a[1] and x.a[1][0] == 'each' for x in subterms_np(f))


def covers_all(k, vs):
    """the loop of the counter runs over all verifiers"""
    for g in k.incs + k.keeps:
        for f, v in g:
            for x in subterms_np(f):
                if x.op == 'elem' and range_over(x.a[0], vs):
                    return True
    return False


def V05(ctx):
    for m, (pre, fld_ok) in MODS.items():
        fn = m + '::Aggregator::deal_certified'
        r = ctx.run(pre + 'Aggregator::deal_certified')
        cert_cases(ctx, r, fn, r.p(1), fld_ok, true_cases(r))
    fn = 'rabin::Aggregator::enough_approvals'
    r = ctx.run(MODS['rabin'][0] + 'Aggregator::enough_approvals')
    S = r.p(1)
    for cf, raw in true_cases(r):
        cnt = [(r.cv(s), counter(r, s)) for s in {s for f, v in raw for s in subterms_np(f) if s.op == 'phi'}]
        ok = any(k and leq((F(S, 't'), 1), (c, -1)) in ineqs(cf) and all(any(v and is_status(f, 'approved', F(S, 'responses')) for f, v in g) for g in k.incs) for c, k in cnt)
        ctx.ob('cert.enough', fn, ok, 'there are enough approvals although fewer than t are recorded')
    # Rabin: a timeout records the missing responses as complaints, never as approvals, and keeps recorded ones
    fn = 'rabin::Aggregator::clean_verifiers'
    r = ctx.run(MODS['rabin'][0] + 'Aggregator::clean_verifiers')
    S = r.p(1)
    ins = [ev for ev in r.events if ev.kind == 'call' and (ev.name.endswith('::insert') or ev.name == 'insert')]
    ctx.ob('timeout.inserts', fn, bool(ins), 'a timeout records nothing for the missing verifiers')
    for ev in ins:
        val = r.cv(ev.args[-1])
        st = get(val, 'approved')
        ctx.ob('timeout.complaint', fn, st.op == 'const' and st.a[1] in (0, False), 'a missing verifier is counted as an approval')
        ok = any(not v and f.op == 'has' and r.cv(origin(f.a[0])) is F(S, 'responses') and f.a[1] is ev.args[-2] for f, v in ev.facts) if len(ev.args) == 3 else False
        ctx.ob('timeout.vacant', fn, ok, 'a timeout overwrites a recorded response')


    # the verifiers reported as missing
    fn = 'pedersen::Aggregator::missing_responses'
    r = ctx.run(MODS['pedersen'][0] + 'Aggregator::missing_responses')
    S = r.p(1)
    vs, resps = F(S, 'verifiers'), F(S, 'responses')
    for e in need_ok(ctx, r, fn):
        A = accum(r, e.pay_raw)
        ok = A is not None and A.shape_ok and len(A.loops) == 1 and all(i.op in ('bytes', 'array') and not i.a for i in A.inits_c)
        if ok:
            L = list(A.loops)[0]
            ok = all(i.op == 'elem' and i.a[1] == L and range_over(i.a[0], vs) for i, g in A.steps_c) and \
                all(any(not v and f.op == 'has' and f.a[0] is resps and f.a[1].op == 'elem' and f.a[1].a[1] == L for f, v in g) for i, g in A.steps_c) and \
                all(any(v and f.op == 'has' and f.a[0] is resps and f.a[1].op == 'elem' and f.a[1].a[1] == L for f, v in g) for g in A.keeps_c) and \
                (mk('done', L), True) in e.facts
        ctx.ob('missing.list', fn, ok, 'the verifiers reported as missing are not exactly those without a recorded response')
    # announcing the timeout takes effect on the book of responses
    for m, (pre, fld_ok) in MODS.items():
        for who in ('Dealer', 'Verifier'):
            fn = '%s::%s::set_timeout' % (m, who)
            asm = [(mk('istest', mk('field', mk('param', 1, 'self'), 'aggregator'), 'Some'), True)] if who == 'Verifier' else []
            r = ctx.run(pre + who + '::set_timeout', opaque=PROTO | ({pre + 'Aggregator::clean_verifiers'} if m == 'rabin' else set()), assume=asm)
            S = r.p(1)
            ag = agg_of(F(S, 'aggregator')) if who == 'Verifier' else F(S, 'aggregator')
            ctx.ob('timeout.set', fn, bool(r.exits), 'the timeout cannot be announced')
            for e in r.exits:
                v = e.final(S, 'aggregator')
                v = agg_of(v) if who == 'Verifier' else v
                if m == 'pedersen':
                    tm = get(v, 'timeout')
                    ok = tm.op == 'const' and tm.a[1] in (1, True) and all(get(v, x) is F(ag, x) for x in ('responses', 'bad_dealer', 't', 'deal'))
                else:
                    ok = v.op == 'mut' and v.a[0].endswith('clean_verifiers') and v.a[2] is ag
                ctx.ob('timeout.set', fn, ok, 'announcing the timeout does not take effect on the book of responses')


# ---------------------------------------------------------------- V06
def V06(ctx):
    P = MODS['pedersen'][0]
    R = MODS['rabin'][0]
    jobs = [(P + 'Verifier::deal', 'pedersen', 'Verifier'), (P + 'Dealer::secret_commit', 'pedersen', 'Dealer'),
            (R + 'Verifier::deal', 'rabin', 'Verifier'), (R + 'Dealer::secret_commit', 'rabin', 'Dealer'), (R + 'Dealer::commits', 'rabin', 'Dealer')]
    for name, m, holder in jobs:
        fn = m + '::' + name.split('::vss::')[-1]
        cert = MODS[m][0] + 'Aggregator::deal_certified'
        r = ctx.run(name, opaque=PROTO | {cert, MODS[m][0] + 'Aggregator::enough_approvals'})
        S = r.p(1)
        A = F(S, 'aggregator') if holder == 'Dealer' else r.cv(r.an.payload(mk('field', mk('param', 1, 'self'), 'aggregator'), 'Some'))
        cases = []
        for e in r.exits:
            for leaf, g in value_alts(e.ret, e.facts):
                c = r.cv(leaf)
                if c.op == 'adt' and c.a[1] in ('None', 'Err'):
                    continue
                cases.append((agg_of(c), canon_facts(r.N, g)))
        if not cases:
            ctx.bad('exits', fn, 'nothing is ever released')
        for v, cf in cases:
            ctx.ob('release.certified', fn, (C('call', cert, A), True) in cf, 'released although the deal is not certified')
            if name.endswith('Verifier::deal'):
                ok = v is agg_of(F(A, 'deal'))
                ctx.ob('release.value', fn, ok, 'the released deal is not the one of this session')
            elif name.endswith('secret_commit'):
                ctx.ob('release.value', fn, r.N.pt(v) == {B: {(F(S, 'secret'),): 1}}, 'the released commitment is not the secret times the base point')
            else:
                ctx.ob('release.value', fn, v is F(S, 'secret_commits'), 'the released commitments are not those of the secret polynomial')


# ---------------------------------------------------------------- V07
def V07(ctx):
    for m, (pre, fld_ok) in MODS.items():
        fn = m + '::new_dealer'
        r = ctx.run(pre + 'new_dealer')
        suite, lt, sec, vs, t = [r.p(i) for i in range(1, 6)]
        n = C('call', 'len', vs)
        dp = r.N.fl({B: {(lt,): 1}})
        for e in need_ok(ctx, r, fn):
            p = e.pay
            iq = ineqs(e.cf)
            ctx.ob('dealer.threshold', fn, leq((t, -1), (None, 2)) in iq and leq((t, 1), (n, -1)) in iq, 'a dealer is created with a threshold below 2 or above the number of verifiers')
            ctx.ob('dealer.fields', fn, F(p, 'long') is lt and F(p, 'secret') is sec and F(p, 'verifiers') is vs and F(p, 't') is t and F(p, 'pubb') is dp,
                   'the dealer does not hold the given keys, secret, verifiers and threshold')
            polys = [x for x in all_sub(p) if x.op == 'call' and x.a[0] == 'share::poly::new_pri_poly']
            sp = [x for x in polys if x.a[3] is opt_some(sec)]
            rp = [x for x in polys if x.a[3].op == 'adt' and x.a[3].a[1] == 'None']
            ok = len(set(sp)) == 1 and all(x.a[2] is t and stream_of(x.a[4], suite) for x in polys) and (m == 'pedersen' or len(set(rp)) == 1)
            ctx.ob('dealer.poly', fn, ok, 'the sharing polynomial does not have threshold t, the given secret as constant term and coefficients from the suite\'s random stream')
            if not ok:
                continue
            f = sp[0]
            dl = F(p, 'deals')
            d = coll_elem(dl, vs)
            ctx.ob('dealer.deals', fn, d is not None, 'there is not one deal for each verifier')
            if d is not None:
                i = [x for x in [d]][0]
                ss = F(i, 'sec_share')
                okk = ss.op == 'call' and ss.a[0] == 'share::poly::PriPoly::eval' and ss.a[1] is f and ss.a[2].op == 'elem' and range_over(ss.a[2].a[0], vs)
                if m == 'rabin':
                    rs = F(i, 'rnd_share')
                    okk = okk and rs.op == 'call' and rs.a[0] == 'share::poly::PriPoly::eval' and rs.a[1] is rp[0] and rs.a[2] is ss.a[2]
                ctx.ob('dealer.share', fn, okk, 'a deal does not hold the value of the polynomial at its own index')
                cm = F(i, 'commitments')
                ctx.ob('dealer.commitments', fn, commits_ok(r, m, cm, f, rp, vs), 'the commitments in a deal are not those of the sharing polynomials')
                ctx.ob('dealer.sid', fn, F(i, 'session_id') is F(p, 'session_id') and F(p, 'session_id') is sid_term(dp, vs, cm, t) and F(i, 't') is t,
                       'the session identifier of a deal does not cover dealer, verifiers, commitments and threshold')
                ag = F(p, 'aggregator')
                ctx.ob('dealer.aggregator', fn, F(ag, 'verifiers') is vs and F(ag, 'sid') is F(p, 'session_id') and F(ag, 't') is t and F(ag, 'commits') is cm and F(ag, 'dealer') is dp,
                       'the dealer\'s response book does not belong to its session')
            ctx.ob('dealer.context', fn, context_ok(r, m, F(p, 'hkdf_context'), dp, vs), 'the encryption context does not cover dealer and verifiers')
        fn = m + '::new_verifier'
        r = ctx.run(pre + 'new_verifier')
        suite, lt, dk, vs = [r.p(i) for i in range(1, 5)]
        pub = r.N.fl({B: {(lt,): 1}})
        for e in need_ok(ctx, r, fn):
            p = e.pay
            ctx.ob('verifier.fields', fn, F(p, 'longterm') is lt and F(p, 'dealer') is dk and F(p, 'verifiers') is vs and F(p, 'pubb') is pub,
                   'the verifier does not hold the given keys, dealer and verifiers')
            ix = F(e.pay_raw, 'index')
            ok = False
            cases = value_alts(ix, e.facts)
            good = 0
            bad = 0
            for leaf, g in cases:
                cf = canon_facts(r.N, g)
                l = r.cv(leaf)
                if at_index(cf, vs, l, pub):
                    good += 1
                else:
                    bad += 1
            ctx.ob('verifier.index', fn, good > 0 and bad == 0, 'a verifier is created whose index is not the position of its own public key in the list')
            ctx.ob('verifier.context', fn, context_ok(r, m, F(p, 'hkdf_context'), dk, vs), 'the encryption context does not cover dealer and verifiers')


def stream_of(t, suite):
    while t.op == 'mut':
        t = t.a[2 + t.a[1]]
    return t.op == 'call' and t.a[0] == 'Random::random_stream' and t.a[1] is suite


def coll_elem(dl, vs):
    """the record collected for each verifier"""
    if dl.op == 'coll' and range_over(dl.a[1], vs):
        return dl.a[0]
    if dl.op == 'bytes' and len(dl.a) == 1 and dl.a[0].op == 'rep' and len(dl.a[0].a[1]) == 1:
        cs = dl.a[0].a[0]
        cs = [x for x in (cs.a if cs.op in ('tuple', 'array') else [cs])]
        if any(range_over(c, vs) for c in cs):
            return dl.a[0].a[1][0]
        return None
    if dl.op == 'phi':
        recs = []
        for a in PHI_ALTS.get(dl, ()):
            x = a
            if x.op == 'mut' and x.a[0] == 'Vec::push':
                recs.append(x.a[3])
        recs = {x for x in recs}
        if recs:
            return sorted(recs, key=lambda t: t.id)[-1]
    return None


def commits_of(x):
    """the polynomial whose commitments x are"""
    return x


def commits_ok(r, m, cm, f, rp, vs):
    subs = all_sub(cm)
    cf = [x for x in subs if x.op == 'call' and x.a[0] == 'share::poly::PriPoly::commit']
    if not any(x.a[1] is f for x in cf):
        return False
    if m == 'pedersen':
        x = [x for x in cf if x.a[1] is f][0]
        b = x.a[2]
        base_ok = (b.op == 'adt' and (b.a[1] == 'None' or r.N.pt(dict(b.a[2])['0']) == {B: {(): 1}}))
        return base_ok and len(cf) == 1
    g = [x for x in cf if rp and x.a[1] is rp[0]]
    if not g:
        return False
    h = g[0].a[2]
    hh = dict(h.a[2])['0'] if h.op == 'adt' and h.a[1] == 'Some' else None
    ok = hh is not None and hh.op == 'call' and hh.a[0] == 'Point::pick' and mentions(hh, rep_enc(vs))
    add = [x for x in subs if x.op == 'call' and x.a[0] == 'share::poly::PubPoly::add']
    return ok and any({a.a[1] for a in x.a[1:3] if a.op == 'call' and a.a[0] == 'share::poly::PriPoly::commit'} == {f, rp[0]} for x in add)


def context_ok(r, m, c, dealer, vs):
    subs = all_sub(c)
    return enc(dealer) in subs and any(x.op == 'rep' and x.a[0] is vs and enc(C('elem', vs, 'L')) in x.a[1] for x in subs)


def at_index(cf, vs, l, pub):
    """the facts state verifiers[l] == pub"""
    from norm import l_add
    for f, v in cf:
        if not v:
            continue
        if f.op == 'eqp':
            lf = {b: dict(p) for b, p in f.a[0]}
            items = [b for b in lf if b.op in ('elem', 'index') and b.a[0] is vs]
            if len(items) == 1 and matches_pos(items[0], l):
                return True
        if f.op == 'eq':
            for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if x.op in ('elem', 'index') and x.a[0] is vs and y is pub and matches_pos(x, l):
                    return True
    return False


def matches_pos(item, l):
    if item.op == 'index':
        return item.a[1] is l
    # element number l of the same loop
    return l.op == 'elem' and l.a[1] == item.a[1]


# ---------------------------------------------------------------- V08
def V08(ctx):
    for m, (pre, fld_ok) in MODS.items():
        fn = m + '::recover_secret'
        r = ctx.run(pre + 'recover_secret')
        suite, deals, n, t = [r.p(i) for i in range(1, 5)]
        for e in need_ok(ctx, r, fn):
            rec = [x for x in subterms_np(e.pay) if x.op == 'call' and x.a[0] == 'share::poly::recover_secret']
            ok = len(rec) == 1 and e.pay.op == 'vf' and e.pay.a[0] is rec[0] and rec[0].a[3] is t and rec[0].a[4] is n
            ctx.ob('recover.threshold', fn, ok, 'the secret is not recovered with the given threshold and number of participants')
            if ok:
                sh = [x for x in all_sub(rec[0].a[2]) if x.op == 'field' and x.a[1] == 'sec_share']
                ctx.ob('recover.shares', fn, bool(sh) and all(x.a[0].op in ('elem', 'index') and x.a[0].a[0] is deals for x in sh), 'the recovered shares are not those of the given deals')
            first = C('field', C('index', deals, int_c(0)), 'session_id')
            same = any(v and f.op == 'eq' and any(x.op == 'field' and x.a[1] == 'session_id' and x.a[0].op == 'elem' and x.a[0].a[0] is deals and is_each(x.a[0]) for x in f.a) for f, v in e.cf)
            ctx.ob('recover.session', fn, same, 'a secret is recovered from deals of different sessions')


def is_each(x):
    return isinstance(x.a[1], tuple) and x.a[1] and x.a[1][0] == 'each'


# ---------------------------------------------------------------- V09
def V09(ctx):
    for m, (pre, fld_ok) in MODS.items():
        fn = m + '::Response::hash'
        r = ctx.run(pre + 'Response::hash')
        S = r.p(1)
        for e in need_ok(ctx, r, fn):
            ctx.ob('digest.response', fn, covers(e.pay, response_hash(F(S, 'session_id'), F(S, 'index'), F(S, fld_ok))), 'the digest of a response does not cover session, index and verdict')
        fn = m + '::Justification::hash'
        r = ctx.run(pre + 'Justification::hash')
        S = r.p(1)
        for e in need_ok(ctx, r, fn):
            ps = [norm_part(p) for p in e.pay.a[0].a] if e.pay.op == 'hash' else []
            inner = [x for p in ps for x in subterms_np(p)]
            ctx.ob('digest.justification', fn, F(S, 'session_id') in ps and F(S, 'index') in ps and F(S, 'deal') in inner, 'the digest of a justification does not cover session, index and deal')
    tags = {}
    for m, (pre, fld_ok) in MODS.items():
        for nm in ('Response', 'Justification'):
            r = ctx.run(pre + nm + '::hash')
            for e in r.oks():
                p = e.pay.a[0].a[0] if e.pay.op == 'hash' and e.pay.a[0].a else None
                tags[(m, nm)] = p
        a, b = tags.get((m, 'Response')), tags.get((m, 'Justification'))
        ctx.ob('digest.tags', m, a is not None and b is not None and a.op == 'const' and b.op == 'const' and a is not b and not prefix(a, b),
               'responses and justifications are not told apart by a leading tag')


def prefix(a, b):
    x, y = str(a.a[1]), str(b.a[1])
    return x.startswith(y) or y.startswith(x)
