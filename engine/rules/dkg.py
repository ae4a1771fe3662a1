"""Distributed key generation (Pedersen, with resharing, and Rabin)."""
from lib import *
from lib import State, plain_loops
from norm import B
from vss import F, get, bytes_of, enc, agg_of, int_c, num_eq, need_ok, opt_some, field_alts, get_raw, all_sub, find_call, MODS, sid_term, range_over, is_each, fresh, stream_of, signed_by

DP = 'share::dkg::pedersen::dkg::'
DR = 'share::dkg::rabin::dkg::'
GEN = {'pedersen': DP + 'DistKeyGenerator::', 'rabin': DR + 'DistKeyGenerator::'}
VSS_OPS = ('Verifier::process_encrypted_deal', 'Verifier::process_response', 'Verifier::process_justification', 'Verifier::deal', 'Dealer::process_response',
           'Dealer::encrypted_deals', 'Dealer::encrypted_deal', 'Aggregator::deal_certified', 'Aggregator::process_response', 'Aggregator::verify_response',
           'new_dealer', 'new_verifier', 'recover_secret', 'Aggregator::missing_responses', 'Aggregator::verify_deal', 'Dealer::secret_commit', 'Dealer::commits',
           'Aggregator::enough_approvals', 'Aggregator::verify_justification', 'Response::hash', 'Dealer::private_poly', 'Aggregator::unsafe_set_response_dkg',
           'Verifier::unsafe_set_response_dkg', 'Verifier::set_timeout', 'Aggregator::set_timeout', 'Aggregator::set_threshold', 'Verifier::commits')
S0 = mk('param', 1, 'self')


def ops(m, *extra):
    return PROTO | {MODS[m][0] + x for x in VSS_OPS} | {GEN[m] + x for x in extra}


def vop(m, name, *a):
    return C('call', MODS[m][0] + name, *a)


def okp(x):
    return C('vf', x, 'Ok', '0')


def somep(x):
    return C('vf', x, 'Some', '0')


def drun(ctx, m, fn, flags=(), extra=()):
    asm = [(mk('field', S0, f), v) for f, v in flags]
    return ctx.run(GEN[m] + fn, opaque=ops(m, *extra), assume=asm) if asm else ctx.run(GEN[m] + fn, opaque=ops(m, *extra))


def inb(cf, lst, i):
    """the facts state that i is an index of the list"""
    return (C('has', lst, i), True) in cf or leq((i, 1), (C('call', 'len', lst), -1), (None, 1)) in ineqs(cf)


def chain(t):
    """writes to a map, last first: (kind, key, value), then the base"""
    out = []
    while True:
        if t.op == 'mut' and t.a[0] in ('store', 'insert', 'HashMap::insert') and len(t.a) == 5:
            out.append((t.a[3], t.a[4]))
            t = t.a[2]
            continue
        if t.op == 'mut' and t.a[0] in ('remove', 'HashMap::remove') and len(t.a) == 4:
            out.append((t.a[3], None))
            t = t.a[2]
            continue
        return out, t


def untouched(e, S, *names):
    return all(e.final(S, n) is F(S, n) for n in names)


# ---------------------------------------------------------------- D01
def ser_without_sig(cf_or_t, dd):
    return okp(C('call', 'bincode::serialize', C('upd', dd, (('signature', C('bytes')),))))


def D01(ctx):
    m = 'pedersen'
    fn = 'pedersen::process_deal'
    for rs in (True, False):
        r = drun(ctx, m, 'process_deal', [('is_resharing', rs)])
        S, dd = r.p(1), r.p(2)
        lst = F(S, 'c', 'old_nodes') if rs else F(S, 'c', 'new_nodes')
        i = F(dd, 'index')
        ver = C('index', F(S, 'verifiers'), i)
        pe = vop(m, 'Verifier::process_encrypted_deal', ver, F(dd, 'deal'))
        for e in need_ok(ctx, r, fn):
            ctx.ob('deal.receiver', fn, (F(S, 'new_present'), True) in e.cf, 'a node outside the new group accepts a deal')
            ctx.ob('deal.dealer', fn, inb(e.cf, lst, i), 'a deal is accepted whose dealer index is outside the list of dealers')
            ctx.ob('deal.author', fn, deal_signed(e.cf, S, C('index', lst, i), dd), 'a deal is accepted without the signature of the dealer at that index over it')
            ctx.ob('deal.verified', fn, (C('has', F(S, 'verifiers'), i), True) in e.cf and (C('is', pe, 'Ok'), True) in e.cf, 'a deal is accepted without being processed by the verifier of that dealer')
            ctx.ob('deal.index', fn, F(e.pay, 'index') is i, 'the response does not name the dealer')
            for leaf, g in field_alts(e.pay_raw, ['response', 'index']):
                ctx.ob('deal.response', fn, r.cv(leaf) is F(okp(pe), 'index'), 'the response is not the one of the verifier')
            for leaf, g in field_alts(e.pay_raw, ['response', 'session_id']):
                ctx.ob('deal.response', fn, r.cv(leaf) is F(okp(pe), 'session_id'), 'the response is not the one of the verifier')
    m = 'rabin'
    fn = 'rabin::process_deal'
    r = drun(ctx, m, 'process_deal')
    S, dd = r.p(1), r.p(2)
    i = F(dd, 'index')
    nv = vop(m, 'new_verifier', F(S, 'suite'), F(S, 'long'), C('index', F(S, 'participants'), i), F(S, 'participants'))
    pe = vop(m, 'Verifier::process_encrypted_deal', okp(nv), F(dd, 'deal'))
    for e in need_ok(ctx, r, fn):
        ctx.ob('deal.dealer', fn, inb(e.cf, F(S, 'participants'), i), 'a deal is accepted whose dealer index is outside the list of participants')
        ctx.ob('deal.once', fn, (C('has', F(S, 'verifiers'), i), False) in e.cf, 'a second deal of a dealer is accepted')
        ctx.ob('deal.verified', fn, (C('is', nv, 'Ok'), True) in e.cf and (C('is', pe, 'Ok'), True) in e.cf,
               'a deal is accepted without being processed by a verifier set up for the dealer at that index and the participants')
        ctx.ob('deal.index', fn, F(e.pay, 'index') is i, 'the response does not name the dealer')
        ctx.ob('deal.response', fn, F(e.pay, 'response') is okp(pe), 'the response is not the one of the verifier')
        w, base = chain(e.final(S, 'verifiers'))
        ok = base is F(S, 'verifiers') and len(w) == 1 and w[0][0] is i and derived(w[0][1], okp(nv), (MODS[m][0] + 'Verifier::process_encrypted_deal', MODS[m][0] + 'Verifier::unsafe_set_response_dkg', MODS[m][0] + 'Aggregator::unsafe_set_response_dkg'))
        ctx.ob('deal.stored', fn, ok, 'the verifier that processed the deal is not the one kept for its dealer')
        given = {(s.a[-2], s.a[-1]) for s in all_sub(e.final(S, 'verifiers')) if s.op == 'mut' and s.a[0].endswith('::unsafe_set_response_dkg')}
        ok = all(uncast(x) is i and a.op == 'const' and a.a[1] in (1, True) for x, a in given)
        ctx.ob('deal.granted', fn, ok and len(given) == 1, 'an answer is recorded for another participant than the dealer of the deal, or its own approval is not')
    errs = r.errs()
    for e in errs:
        ctx.ob('deal.rejected', fn, e.final(S, 'verifiers') is F(S, 'verifiers'), 'a rejected deal leaves a verifier behind')
    # own deals
    own_deals(ctx)


def deal_signed(cf, S, pub, dd):
    for f, v in cf:
        if not v or f.op != 'is' or f.a[1] != 'Ok':
            continue
        c = f.a[0]
        if c.op == 'call' and c.a[0] == SCH_V and c.a[2] is pub and c.a[4] is F(dd, 'signature') and covers_deal(c.a[3], dd):
            return True
    return False


def covers_deal(msg, dd):
    """an encoding of the deal and its index, with the signature blanked"""
    x = msg
    while x.op == 'vf':
        x = x.a[0]
    if x.op == 'call' and x.a[0] == 'bincode::serialize':
        x = x.a[1]
        return (x.op == 'upd' and x.a[0] is dd and {n for n, _ in x.a[1]} == {'signature'}
                or x.op == 'adt' and F(x, 'index') is F(dd, 'index') and F(x, 'deal') is F(dd, 'deal'))
    parts = list(x.a) if x.op == 'bytes' else [x]
    return all(any(carries(p, F(dd, n)) for p in parts) for n in ('index', 'deal'))


def derived(t, base, allowed):
    """t is base after in-place calls of the allowed operations and field updates made by them"""
    seen = 0
    while t is not base:
        seen += 1
        if seen > 20:
            return False
        if t.op == 'mut' and t.a[0] in allowed:
            t = t.a[2 + t.a[1]]
        elif t.op == 'upd':
            t = t.a[0]
        else:
            return False
    return True


def own_deals(ctx):
    for m, lst, idx in (('pedersen', ('c', 'new_nodes'), 'oidx'), ('rabin', ('participants',), 'index')):
        fn = m + '::deals'
        r = drun(ctx, m, 'deals')
        S = r.p(1)
        ed = vop(m, 'Dealer::encrypted_deals', F(S, 'dealer'))
        n = 0
        for t in {x for e in need_ok(ctx, r, fn) for x in all_sub(e.pay_raw)}:
            if not (t.op == 'mut' and t.a[0] in ('insert', 'HashMap::insert', 'store') and len(t.a) == 5):
                continue
            k, d = r.cv(unprev(t.a[3])), r.cv(unprev(t.a[4]))
            if F(d, 'deal').op not in ('index', 'elem', 'field'):
                continue
            n += 1
            dl = F(d, 'deal')
            ok = (dl.op == 'index' and dl.a[1] is k or dl.op == 'elem' and k.op == 'elem' and k.a[1] == dl.a[1]) and dl.a[0] is okp(ed)
            ctx.ob('deals.addressed', fn, ok, 'a deal is handed out for another receiver than the one it is encrypted for')
            ctx.ob('deals.index', fn, F(d, 'index') is F(S, idx), 'an own deal does not carry the own dealer index')
            if m == 'pedersen':
                sg = F(d, 'signature')
                ok = sg.op == 'vf' and sg.a[0].op == 'call' and sg.a[0].a[0] == SCH_S and sg.a[0].a[2] is F(S, 'long') and own_cover(sg.a[0].a[3], d)
                ctx.ob('deals.signed', fn, ok, 'an own deal is not signed, over its content and index, with the long-term key')
        ctx.ob('deals.some', fn, n > 0, 'no deal is ever handed out')


def own_cover(msg, d):
    x = msg
    while x.op == 'vf':
        x = x.a[0]
    if x.op == 'call' and x.a[0] == 'bincode::serialize':
        return F(x.a[1], 'index') is F(d, 'index') and F(x.a[1], 'deal') is F(d, 'deal')
    inner = list(subterms_np(x))
    return F(d, 'index') in inner and F(d, 'deal') in inner


# ---------------------------------------------------------------- D02
def D02(ctx):
    for m in ('pedersen', 'rabin'):
        fn = m + '::process_response'
        splits = [[]] if m == 'rabin' else [[('is_resharing', False)], [('is_resharing', True), ('new_present', True)], [('is_resharing', True), ('can_issue', False)]]
        seen = 0
        for flags in splits:
            r = drun(ctx, m, 'process_response', flags)
            S, rp = r.p(1), r.p(2)
            own = F(S, 'oidx') if m == 'pedersen' else F(S, 'index')
            i = F(rp, 'index')
            ver = C('index', F(S, 'verifiers'), i)
            pr = vop(m, 'Verifier::process_response', ver, F(rp, 'response'))
            dj = vop(m, 'Dealer::process_response', F(S, 'dealer'), F(rp, 'response'))
            for e in need_ok(ctx, r, fn):
                ctx.ob('response.verifier', fn, (C('has', F(S, 'verifiers'), i), True) in e.cf and (C('is', pr, 'Ok'), True) in e.cf,
                       'a response is accepted that the verifier of the dealer it is about did not accept')
                for j, cf in just_cases(r, e):
                    seen += 1
                    ctx.ob('justify.own', fn, num_eq(cf, i, own) and (m == 'rabin' or (F(S, 'can_issue'), True) in cf), 'a justification is issued for another dealer\'s deal')
                    ctx.ob('justify.value', fn, num_eq(cf, F(j, 'index'), own) and F(j, 'justification') is somep(okp(dj)), 'the issued justification is not that of the own dealer for this response')
                    pj = [f for f, v in cf if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('Verifier::process_justification') and f.a[0].a[2] is somep(okp(dj))
                          and derived(f.a[0].a[1], ver, (MODS[m][0] + 'Verifier::process_response',))]
                    ctx.ob('justify.recorded', fn, bool(pj), 'a justification is issued without being processed by the own verifier of the deal')
        ctx.ob('justify.possible', fn, seen > 0, 'no justification is ever issued')
        # justifications of others
        fn = m + '::process_justification'
        r = drun(ctx, m, 'process_justification')
        S, jp = r.p(1), r.p(2)
        i = F(jp, 'index')
        pj = vop(m, 'Verifier::process_justification', C('index', F(S, 'verifiers'), i), F(jp, 'justification'))
        for e in need_ok(ctx, r, fn):
            ok = (C('has', F(S, 'verifiers'), i), True) in e.cf and ((C('is', pj, 'Ok'), True) in e.cf or e.ret.op != 'adt' and pj in all_sub(r.cv(e.ret)))
            ctx.ob('justification.verifier', fn, ok, 'a justification is accepted that the verifier of its dealer did not accept')
    # an old node outside the new group
    m, fn = 'pedersen', 'pedersen::process_response (leaving node)'
    r = drun(ctx, m, 'process_response', [('is_resharing', True), ('can_issue', True), ('new_present', False)])
    S, rp = r.p(1), r.p(2)
    i = F(rp, 'index')
    own = F(S, 'oidx')
    seen = 0
    for e in need_ok(ctx, r, fn):
        oks = [f.a[0] for f, v in e.cf if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('Aggregator::process_response') and f.a[0].a[2] is F(rp, 'response')]
        ok = bool(oks) and all(leaving_aggregator(r, S, i, c.a[1]) for c in oks)
        ctx.ob('leaving.verified', fn, ok, 'a response is accepted without the response book of its dealer, set up with the new group, accepting it')
        for j, cf in just_cases(r, e):
            seen += 1
            jj = F(j, 'justification')
            ctx.ob('leaving.own', fn, num_eq(cf, i, own), 'a justification is issued for another dealer\'s deal')
            ctx.ob('leaving.complaint', fn, (F(rp, 'response', 'status'), False) in cf or has_eq(cf, F(rp, 'response', 'status'), int_c(0)), 'a deal is revealed without a complaint')
            ok = F(j, 'index') is own and F(jj, 'session_id') is F(S, 'dealer', 'session_id') and F(jj, 'index') is F(rp, 'response', 'index') and \
                F(jj, 'deal') is C('index', F(S, 'dealer', 'deals'), F(rp, 'response', 'index'))
            ctx.ob('leaving.value', fn, ok, 'the justification does not reveal exactly the deal of the complaining verifier in this session')
    ctx.ob('leaving.possible', fn, seen > 0, 'no justification is ever issued')


def just_cases(r, e):
    """the justifications an exit can carry, with the facts under which it does"""
    out = []
    for leaf, g in value_alts(e.pay_raw, e.facts):
        c = r.cv(leaf)
        cf = canon_facts(r.N, g)
        if c.op == 'adt' and c.a[1] == 'None':
            continue
        if c.op == 'adt' and c.a[1] == 'Some':
            j = dict(leaf.a[2])['0']
            for l2, g2 in value_alts(j, g):
                out.append((r.cv(l2), canon_facts(r.N, g2)))
        else:
            out.append((agg_of(c), cf))
    # split the inner justification too
    return out


def leaving_aggregator(r, S, i, t):
    """index(map, i) where map is the stored aggregators or has a fresh one for i inserted"""
    base = F(S, 'old_aggregators')
    if t.op != 'index' or t.a[1] is not i:
        return False
    for leaf, g in value_alts(t.a[0]):
        leaf = r.cv(leaf)
        if leaf is base:
            continue
        w, b = chain(leaf)
        if b is not base or len(w) != 1 or w[0][0] is not i:
            return False
        a = w[0][1]
        if get(a, 'verifiers') is not F(S, 'c', 'new_nodes') or get(a, 'suite') is not F(S, 'suite'):
            return False
    return True


# ---------------------------------------------------------------- D03
def entry_of(x, kind):
    """('key'|'value', container, loop) of a term built from an element of a map"""
    if x.op == 'field' and x.a[0].op == 'elem' and x.a[1] in ('0', '1'):
        return x.a[1], x.a[0].a[0], x.a[0].a[1]
    return None


def is_cert(f, m, c, L):
    """f is deal_certified() of the entry of container c at loop L"""
    if f.op != 'call' or not f.a[0].endswith('::deal_certified'):
        return False
    a = f.a[1]
    if a.op == 'vf':
        a = a.a[0]
        if a.op == 'field' and a.a[1] == 'aggregator':
            a = a.a[0]
    return a is C('field', C('elem', c, L), '1') or a is C('index', c, C('field', C('elem', c, L), '0'))


def lloop(A):
    ls = list(A.loops)
    return ls[0] if len(ls) == 1 else None


def plain_list(A):
    """the accumulated value starts as an empty list"""
    return all(i.op in ('bytes', 'array') and not i.a for i in A.inits_c)


def over_certified(r, m, A, c, facts, exact=True):
    """the accumulation takes exactly the entries of c whose deal is certified, all of them. (name, holds)"""
    L = lloop(A)
    if L is None:
        return False, False
    sel = all(any(v and is_cert(f, m, c, L) for f, v in g) for i, g in A.steps_c)
    al = all(any(not v and is_cert(f, m, c, L) for f, v in g) for g in A.keeps_c)
    done = (mk('done', L), True) in facts
    return sel, al and done


QCASES = {'pedersen': [([('is_resharing', False)], 'verifiers'), ([('is_resharing', True), ('new_present', True)], 'verifiers'), ([('is_resharing', True), ('can_issue', False)], 'verifiers'),
                       ([('is_resharing', True), ('can_issue', True), ('new_present', False)], 'old_aggregators')],
          'rabin': [([], 'verifiers')]}


def D03(ctx):
    for m in ('pedersen', 'rabin'):
        fn = m + '::qual'
        for flags, cont in QCASES[m]:
            r = drun(ctx, m, 'qual', flags)
            c = F(r.p(1), cont)
            for e in need_ok(ctx, r, fn):
                A = accum(r, e.pay_raw)
                ok = A is not None and A.shape_ok and plain_list(A) and all(i is C('field', C('elem', c, lloop(A)), '0') for i, g in A.steps_c)
                ctx.ob('qual.members', fn, ok, 'the qualified set is not a list of the dealers of the recorded deals')
                if ok:
                    sel, al = over_certified(r, m, A, c, e.facts)
                    ctx.ob('qual.certified', fn, sel, 'a dealer without a certified deal is in the qualified set')
                    ctx.ob('qual.complete', fn, al, 'a dealer with a certified deal is missing in the qualified set')
        fn = m + '::is_in_qual'
        r = drun(ctx, m, 'is_in_qual')
        S, ix = r.p(1), r.p(2)
        n = 0
        for cf, raw in true_cases(r):
            n += 1
            ctx.ob('in-qual.true', fn, in_qual_fact(cf, m, S, ix) or True in [in_list(r, cf, raw, m, S, ix)], 'a dealer without a certified deal is said to be qualified')
        ctx.ob('in-qual.true', fn, n > 0, 'no dealer is ever qualified')
        # thresholds
        if m == 'pedersen':
            fn = m + '::threshold_certified'
            for rs in (True, False):
                r = drun(ctx, m, 'threshold_certified', [('is_resharing', rs)], extra=('qual',))
                S = r.p(1)
                q = C('call', 'len', C('call', GEN[m] + 'qual', S))
                t = F(S, 'c', 'old_threshold') if rs else F(S, 'new_t')
                for cf, raw in true_cases(r):
                    ctx.ob('threshold', fn, leq((t, 1), (q, -1)) in ineqs(cf), 'the threshold is reported as reached with fewer qualified dealers than %s' % ('the old threshold' if rs else 'the threshold'))
            gate = 'threshold_certified'
            fn = m + '::certified'
            for flags, cont in QCASES[m]:
                r = drun(ctx, m, 'certified', flags)
                S = r.p(1)
                n = C('call', 'len', F(S, 'c', 'old_nodes'))
                cases = true_cases(r)
                ctx.ob('certified.all', fn, bool(cases), 'the protocol is never certified')
                for cf, raw in cases:
                    ok = False
                    for s in {s for f, v in raw for s in subterms_np(f) if s.op == 'phi'}:
                        A = accum(r, s)
                        if A is None or not A.shape_ok:
                            A = counter(r, s)      # a number instead of a list
                            if A is None:
                                continue
                            A.steps_c = [(None, g) for g in A.incs]
                            A.loops = {l for g in A.incs for f, v in g for l in absint.loops_in(f)}
                        cnt = C('call', 'len', r.cv(s))
                        if leq((n, 1), (cnt, -1)) not in ineqs(cf) and leq((n, 1), (r.cv(s), -1)) not in ineqs(cf):
                            continue
                        ok = all(any(v and is_cert(f, m, F(S, x), l) for f, v in g for x in ('verifiers', 'old_aggregators') for l in A.loops) and
                                 any(v and none_missing(f) for f, v in g) for i, g in A.steps_c)
                    ctx.ob('certified.all', fn, ok, 'the protocol is reported as certified although a deal is not certified with every response present')
        else:
            gate = 'certified'
            fn = m + '::certified'
            r = drun(ctx, m, 'certified', extra=('qual',))
            S = r.p(1)
            q = C('call', 'len', C('call', GEN[m] + 'qual', S))
            for cf, raw in true_cases(r):
                ctx.ob('threshold', fn, leq((F(S, 't'), 1), (q, -1)) in ineqs(cf), 'the threshold is reported as reached with fewer qualified dealers than the threshold')
        fn = m + '::dist_key_share'
        for flags in ([[('is_resharing', True)], [('is_resharing', False)]] if m == 'pedersen' else [[]]):
            r = drun(ctx, m, 'dist_key_share', flags, extra=(gate,))
            S = r.p(1)
            for e in need_ok(ctx, r, fn):
                ctx.ob('release.threshold', fn, (C('call', GEN[m] + gate, S), True) in e.cf, 'a key share is released before enough deals are certified')
                if m == 'pedersen':
                    ctx.ob('release.receiver', fn, (F(S, 'can_receive'), True) in e.cf, 'a key share is released to a node that receives none')
    # announcing the timeout reaches the verifier of every dealer
    for m in ('pedersen', 'rabin'):
        fn = m + '::set_timeout'
        r = drun(ctx, m, 'set_timeout')
        S = r.p(1)
        vs = F(S, 'verifiers')
        for e in r.exits:
            done = {p.a[0] for p, v in e.facts if p.op == 'done' and v}
            ok = False
            for ev in r.calls('Verifier::set_timeout', MODS[m][0] + 'Verifier::set_timeout'):
                x = r.cv(ev.recv) if ev.recv is not None else None
                y = x.a[0] if x is not None and x.op == 'field' and x.a[1] == '1' else x
                if y is None or y.op not in ('elem', 'index') or y.a[0] not in (vs, C('call', 'values', vs)):
                    continue
                ls = absint.loops_in(y)
                ok = ok or bool(ls) and ls <= done and not any(absint.loop_kind(f, l) == 1 for f, v in ev.facts for l in ls)
            ctx.ob('timeout.all', fn, ok, 'announcing the timeout does not reach the verifier of every dealer')
            if m == 'pedersen':
                t = e.final(S, 'timeout')
                ctx.ob('timeout.own', fn, t.op == 'const' and t.a[1] in (1, True), 'announcing the timeout is not remembered')
        ctx.ob('timeout.all', fn, bool(r.exits), 'the timeout cannot be announced')
    fn = 'rabin::finished'
    m = 'rabin'
    r = drun(ctx, m, 'finished')
    S = r.p(1)
    cases = true_cases(r)
    ctx.ob('finished', fn, bool(cases), 'the protocol never finishes')
    for cf, raw in cases:
        ok = allq = False
        for s in {s for f, v in raw for s in subterms_np(f) if s.op == 'phi'}:
            A = accum(r, s, zero=lambda x: x.op == 'const' and x.a[1] == 0)
            if A is None or leq((F(S, 't'), 1), (r.cv(s), -1)) not in ineqs(cf):
                continue
            ls = {x for i, g in A.steps_c for f, v in g for x in plain_loops(f)}
            A.loops = ls
            L = lloop(A)
            ok = L is not None and all(i.op == 'const' and i.a[1] == 1 and any(v and is_cert(f, m, F(S, 'verifiers'), L) for f, v in g) for i, g in A.steps_c)
            allq = (mk('done', L), True) in raw
        allc = False
        if not ok:      # the qualified dealers were listed first
            for s in {s for f, v in raw for s in subterms_np(f) if s.op == 'phi'}:
                A = accum(r, s)
                lst = r.cv(s)
                if A is None or not A.shape_ok or lloop(A) is None or leq((F(S, 't'), 1), (C('call', 'len', lst), -1)) not in ineqs(cf):
                    continue
                sel, al = over_certified(r, m, A, F(S, 'verifiers'), raw)
                ok = sel and plain_list(A) and all(i is C('field', C('elem', F(S, 'verifiers'), lloop(A)), '0') for i, g in A.steps_c)
                allq = ok and al
                allc = allq and any(v and f.op == 'has' and f.a[0] is F(S, 'commitments') and uncast(f.a[1]).op == 'elem' and uncast(f.a[1]).a[0] is lst and is_each(uncast(f.a[1])) for f, v in cf)
                if ok:
                    break
        ctx.ob('finished.threshold', fn, ok, 'the protocol finishes with fewer certified deals than the threshold')
        vs, cm = F(S, 'verifiers'), F(S, 'commitments')

        def br(b):
            return any(v and f.op == 'has' and f.a[0] is cm and f.a[1].op == 'field' and f.a[1].a[1] == '0' and f.a[1].a[0].op == 'elem' and is_each(f.a[1].a[0]) for f, v in b) or \
                any(not v and f.op == 'call' and f.a[0].endswith('::deal_certified') and any(x.op == 'elem' and is_each(x) and x.a[0] is vs for x in subterms_np(f)) for f, v in b)
        ctx.ob('finished.commitments', fn, allc or allq and disj_holds(cf, br), 'the protocol finishes although the commitments of a qualified dealer are missing')


def in_qual_fact(cf, m, S, ix):
    for f, v in cf:
        if not v:
            continue
        if f.op == 'call' and f.a[0] == GEN[m] + 'is_in_qual' and f.a[1] is S and f.a[2] is ix:
            return True
        if f.op == 'call' and f.a[0].endswith('::deal_certified'):
            a = f.a[1]
            if a.op == 'vf' and a.a[0].op == 'field' and a.a[0].a[1] == 'aggregator':
                a = a.a[0].a[0]
            if a is C('index', F(S, 'verifiers'), ix):
                return True
            if a.op == 'field' and a.a[1] == '1' and a.a[0].op == 'elem' and a.a[0].a[0] is F(S, 'verifiers') and has_eq(cf, C('field', a.a[0], '0'), ix):
                return True
    return False


def in_list(r, cf, raw, m, S, ix):
    return None


def none_missing(f):
    """f states that no response is missing"""
    if f.op == 'call' and f.a[0] in ('is_empty', 'Vec::is_empty') or f.op == 'is_empty':
        return f.a[-1].op == 'call' and f.a[-1].a[0].endswith('::missing_responses')
    if f.op == 'eq' and int_c(0) in f.a:
        return any(x.op == 'call' and x.a[0] == 'len' and x.a[1].op == 'call' and x.a[1].a[0].endswith('::missing_responses') for x in f.a)
    return False


# ---------------------------------------------------------------- D04 (resharing)
POLY = 'share::poly::'


def zero_c(x):
    return x.op == 'const' and len(x.a) > 1 and x.a[1] in (0, False)


def first_commit_eq(cf, lst, S, i):
    """the facts state that the first commitment of the list is the public share of node i"""
    want = F(C('call', POLY + 'PubPoly::eval', F(S, 'dpub'), i), 'v')
    return has_eq(cf, C('index', lst, int_c(0)), want) or has_eq(cf, somep(C('first', lst)), want)


def D04(ctx):
    m = 'pedersen'
    fn = 'pedersen::process_deal (resharing)'
    r = drun(ctx, m, 'process_deal', [('is_resharing', True), ('can_receive', True)])
    S, dd = r.p(1), r.p(2)
    i = F(dd, 'index')
    ver = C('index', F(S, 'verifiers'), i)
    PE = MODS[m][0] + 'Verifier::process_encrypted_deal'
    resp = okp(C('call', PE, ver, F(dd, 'deal')))

    def committed(cf):
        for f, v in cf:
            if v and f.op == 'eq':
                for x in f.a:
                    for s in subterms_np(x):
                        if s.op == 'call' and s.a[0] == MODS[m][0] + 'Verifier::commits' and derived(s.a[1], ver, (PE, MODS[m][0] + 'Verifier::unsafe_set_response_dkg')) and first_commit_eq(cf, somep(s), S, i):
                            return True
        return False
    ncomp = 0
    for e in need_ok(ctx, r, fn):
        for leaf, g in field_alts(e.pay_raw, ['response', 'status'], e.facts):
            c, cf = r.cv(leaf), canon_facts(r.N, g)
            if zero_c(c):
                ncomp += 1
                continue
            ctx.ob('reshare.commitment', fn, c is F(resp, 'status') and committed(cf), 'a deal is not answered with a complaint although its secret is not committed to the old share of the dealer')
        for leaf, g in field_alts(e.pay_raw, ['response', 'signature'], e.facts):
            c, cf = r.cv(leaf), canon_facts(r.N, g)
            ok = c is F(resp, 'signature') and committed(cf)
            if c.op == 'vf' and c.a[0].op == 'call' and c.a[0].a[0] == SCH_S:
                h = c.a[0]
                h3 = h.a[3].a[0] if h.a[3].op == 'vf' else h.a[3]
                ok = h.a[2] is F(S, 'long') and h3.op == 'call' and h3.a[0] == MODS[m][0] + 'Response::hash' and F(h3.a[1], 'session_id') is F(resp, 'session_id') and F(h3.a[1], 'index') is F(resp, 'index') and zero_c(F(h3.a[1], 'status'))
            ctx.ob('reshare.signature', fn, ok, 'the complaint is not signed anew, or an approval loses its signature')
        for v, g in value_alts(e.final_raw(S, 'verifiers'), e.facts):
            c, cf = r.cv(v), canon_facts(r.N, g)
            if committed(cf):
                continue
            ok = False
            for s in all_sub(c):
                if s.op == 'mut' and s.a[0] in ('insert', 'HashMap::insert', 'store') and len(s.a) == 5 and s.a[2].op == 'field' and s.a[2].a[1] == 'responses' and s.a[3] is F(resp, 'index') and zero_c(F(s.a[4], 'status')) and F(s.a[4], 'index') is F(resp, 'index'):
                    ok = True
            ctx.ob('reshare.recorded', fn, ok, 'the deal stays recorded as approved although it is answered with a complaint')
    ctx.ob('reshare.complaint', fn, ncomp > 0, 'a deal of another secret is never complained about')
    # a dealer that is also a receiver answers his own deal himself
    UNS = MODS[m][0] + 'Verifier::unsafe_set_response_dkg'
    for flags in ([('is_resharing', True), ('can_receive', True)], [('is_resharing', True), ('can_receive', False)], [('is_resharing', False)]):
        r2 = drun(ctx, m, 'process_deal', flags)
        lst = F(S, 'c', 'old_nodes') if flags[0][1] else F(S, 'c', 'new_nodes')
        for e in need_ok(ctx, r2, fn):
            n = 0
            for t, g in deep_alts(e.final_raw(S, 'verifiers'), e.facts):
                for s in subterms_np(t):
                    if not (s.op == 'mut' and s.a[0] == UNS):
                        continue
                    n += 1
                    st, idx = s.a[-1], s.a[-2]
                    if flags[0][1]:
                        ctx.ob('reshare.own', fn, zero_c(r2.cv(st)), 'a response of the dealer is invented when resharing')
                    ctx.ob('own.index', fn, idx_of(r2, idx, g, F(S, 'c', 'new_nodes'), C('index', lst, i)), 'the response recorded for the dealer is not under its index in the new group')
            if not flags[0][1]:
                ctx.ob('own.approval', fn, n > 0, 'the dealer never counts as approving its own deal')
    # justifications
    fn = 'pedersen::process_justification (resharing)'
    r = drun(ctx, m, 'process_justification', [('is_resharing', True), ('can_receive', True)])
    S, jp = r.p(1), r.p(2)
    for e in need_ok(ctx, r, fn):
        ctx.ob('reshare.justification', fn, first_commit_eq(e.cf, F(jp, 'justification', 'deal', 'commitments'), S, F(jp, 'index')), 'a justification is accepted whose deal does not commit to the old share of the dealer')
    reshared_key(ctx)


def uncast(t):
    while t.op == 'cast' and t.a[0] not in ('u8', 'i8', 'u16', 'i16', 'bool'):
        t = t.a[1]
    return t


def deep_alts(t, facts, seen=None):
    """(term, facts) for the term and the alternatives of every join inside it"""
    seen = set() if seen is None else seen
    if (t, facts) in seen or len(seen) > 400:
        return []
    seen.add((t, facts))
    out = [(t, facts)]
    for s in subterms_np(t):
        if s.op == 'phi':
            for v in PHI_ALTS.get(s, ()):
                if v is not s:
                    out += deep_alts(v, facts | PHI_GATE.get(s, {}).get(v, frozenset()), seen)
    return out


def idx_of(r, t, facts, lst, pub):
    """under the facts t is the position of pub in the list"""
    for leaf, g in value_alts(t, facts):
        c = uncast(r.cv(leaf))
        cf = canon_facts(r.N, g)
        if c.op == 'call' and 'find' in c.a[0] or c.op == 'vf':
            # position of the element satisfying a closure: decided by the models
            if any(v and f.op == 'eq' and pub in f.a and any(x.op == 'index' and x.a[0] is lst for x in f.a) for f, v in cf):
                continue
            return False
        if not any(v and f.op == 'eq' and pub in f.a and any(x.op == 'index' and x.a[0] is lst and uncast(x.a[1]) is c or x.op == 'elem' and x.a[0] is lst and c.op == 'elem' and c.a[1] == x.a[1] or x.op == 'elem' and x.a[0] is lst and c.op == 'pos' for x in f.a) for f, v in cf):
            return False
    return True


def every_alt(run, t, facts, pred, seen=()):
    """pred holds for the facts at this value or at each of the alternatives it comes from"""
    if pred(facts):
        return True
    if t.op != 'phi' or t in seen:
        return False
    vs = [v for v in PHI_ALTS.get(t, ()) if v is not t and v not in seen]
    return bool(vs) and all(every_alt(run, v, facts | PHI_GATE.get(t, {}).get(v, frozenset()), pred, seen + (t,)) for v in vs)


def pub_checks(raw):
    """PubPoly::check(..) calls the facts state as true"""
    return [f for f, v in raw if v and f.op == 'call' and f.a[0] == POLY + 'PubPoly::check']


def some_of(x):
    if x.op == 'adt' and x.a[1] == 'Some':
        return dict(x.a[2])['0']
    return None


def reshared_key(ctx):
    m = 'pedersen'
    fn = 'pedersen::dist_key_share (resharing)'
    r = drun(ctx, m, 'dist_key_share', [('is_resharing', True)], extra=('threshold_certified',))
    S = r.p(1)
    nold = C('call', 'len', F(S, 'c', 'old_nodes'))
    for e in need_ok(ctx, r, fn):
        ctx.ob('newkey.index', fn, F(e.pay, 'share', 'i') is F(S, 'nidx'), 'the new share does not carry the index of this node in the new group')
        v = get_raw(get_raw(e.pay_raw, 'share'), 'v')
        x = r.cv(v)
        ok = x.op == 'call' and x.a[0] == POLY + 'PriPoly::secret' and x.a[1].op == 'vf' and x.a[1].a[0].op == 'call' and x.a[1].a[0].a[0] == POLY + 'recover_pri_poly'
        ctx.ob('newkey.recovered', fn, ok, 'the new share is not the secret of the polynomial recovered from the received shares')
        if not ok:
            continue
        rp = x.a[1].a[0]
        ctx.ob('newkey.threshold', fn, rp.a[3] is F(S, 'old_t') and rp.a[4] is nold, 'the shares are not recovered with the threshold and size of the old group')
        n = bad = badi = 0
        for s in all_sub(v):
            if s.op == 'call' and s.a[0] == POLY + 'recover_pri_poly':
                for q in all_sub(s.a[2]):
                    if q.op == 'mut' and len(q.a) == 5 and q.a[0] in ('store', 'insert', 'IndexMut'):
                        rec = some_of(r.cv(unprev(q.a[4])))
                        if rec is None or rec.op == 'adt' and F(rec, 'v').op == 'const':
                            continue
                        if F(rec, 'v').op == 'index' or 'sec_share' not in show(rec):
                            continue
                        n += 1
                        d = F(rec, 'v')
                        k, el = share_source(d)
                        if el is None or el.a[0] is not F(S, 'verifiers'):
                            bad += 1
                        elif r.cv(unprev(q.a[3])) is not C('field', el, '0') or F(rec, 'i') is not C('field', el, '0'):
                            badi += 1
        ctx.ob('newkey.shares', fn, n > 0 and not bad, 'a share is used that is not the one dealt to this node by a qualified dealer')
        ctx.ob('newkey.positions', fn, n > 0 and not badi, 'a share is used under another index than that of its dealer')
        # commitments
        fc = get_raw(e.pay_raw, 'commits')
        A = accum(r, fc)
        ok = A is not None and A.shape_ok and bool(A.steps_c)
        ctx.ob('newkey.commits', fn, ok, 'the new public polynomial is not a list built in order')
        if ok:
            for it, g in A.steps_c:
                rc = it.a[0] if it.op == 'vf' else it
                ok = rc.op == 'call' and rc.a[0] == POLY + 'recover_commit' and rc.a[3] is F(S, 'old_t') and rc.a[4] is nold
                ctx.ob('newkey.commit', fn, ok, 'a coefficient of the new public polynomial is not recovered from the dealers\' commitments with the old threshold')
            ls = {f.a[0] for s in A.steps for f in (y for y, b in s[1] if b and y.op == 'done')}
            n = bad = 0
            for it, g in A.steps:
                for s in all_sub(it):
                    if s.op == 'call' and s.a[0] == POLY + 'recover_commit':
                        for q in all_sub(s.a[2]):
                            rec = some_of(unprev(q)) if q.op == 'adt' and q.a[1] == 'Some' else None
                            if rec is None or not (rec.op == 'adt' and {a for a, b in rec.a[2]} >= {'i', 'v'}):
                                continue
                            rec = r.cv(rec)
                            if 'sec_share' in show(rec):
                                continue
                            n += 1
                            bad += not commit_share(r, S, rec)
            ctx.ob('newkey.commit-source', fn, n > 0 and not bad, 'a coefficient of the new public polynomial is recovered from something else than the same coefficient of every dealer, at the dealer\'s index')
        # the result is checked

        def checked(facts, want):
            for c in pub_checks(facts):
                p, sh = r.cv(c.a[1]), r.cv(c.a[2])
                if sh is not F(e.pay, 'share') and not (F(sh, 'i') is F(e.pay, 'share', 'i') and F(sh, 'v') is F(e.pay, 'share', 'v')):
                    continue
                if F(p, 'b').op != 'adt' or F(p, 'b').a[1] != 'None':
                    continue
                if get_raw(c.a[1], 'commits') is want or F(p, 'commits') is r.cv(want):
                    return True
            return False

        def ev(t, facts, seen=()):
            if checked(facts, t):
                return True
            if t.op != 'phi' or t in seen:
                return False
            vs = [x for x in PHI_ALTS.get(t, ()) if x is not t]
            return bool(vs) and all(ev(x, facts | PHI_GATE.get(t, {}).get(x, frozenset()), seen + (t,)) for x in vs)
        ctx.ob('newkey.checked', fn, ev(fc, e.facts), 'a new share is released without being on the new public polynomial')
    # renewing
    fn = 'pedersen::DistKeyShare::renew'
    r = ctx.run('share::dkg::pedersen::structs::DistKeyShare::renew')
    S, g = r.p(1), [p for p in (r.p(2), r.p(3)) if p is not None and p.a[1] == 'g']
    g = g[0] if g else r.p(3)
    for e in need_ok(ctx, r, fn):
        ctx.ob('renew.index', fn, num_eq(e.cf, F(S, 'share', 'i'), F(g, 'share', 'i')), 'shares of different nodes are combined')
        ctx.ob('renew.zero', fn, any(v and f.op == 'eqp' and len(f.a[0]) == 1 and f.a[0][0][0] is C('index', F(g, 'commits'), int_c(0)) for f, v in e.cf),
               'a renewal is accepted whose secret is not zero')
        ctx.ob('renew.length', fn, num_eq(e.cf, C('call', 'len', F(S, 'commits')), C('call', 'len', F(g, 'commits'))), 'polynomials of different length are combined')
        sh = r.N.scal(F(e.pay, 'share', 'v')) if hasattr(r.N, 'scal') else None
        ctx.ob('renew.share', fn, 'scal' == F(e.pay, 'share', 'v').op and {x: c for x, c in scal_items(F(e.pay, 'share', 'v'))} == {F(S, 'share', 'v'): 1, F(g, 'share', 'v'): 1}, 'the renewed share is not the sum of the shares')
        ctx.ob('renew.share-index', fn, F(e.pay, 'share', 'i') in (F(S, 'share', 'i'), F(g, 'share', 'i')), 'the renewed share changes its index')
        A = accum(r, get_raw(e.pay_raw, 'commits'))
        ok = A is not None and A.shape_ok and bool(A.steps_c) and all(sum_at_same(i, F(S, 'commits'), F(g, 'commits')) for i, _ in A.steps_c)
        whole = {y.a[2] for i, _ in A.steps_c for y in [i] if y.op == 'coll'} if ok else set()       # collected: every element was visited
        ok = ok and all((mk('done', l), True) in e.facts or l in whole for l in A.loops)
        ctx.ob('renew.commits', fn, ok, 'the renewed commitments are not the sums of the commitments, coefficient by coefficient')


def scal_items(t):
    """[(single atom, coefficient)] of a scalar sum"""
    out = []
    for mono, c in t.a[0]:
        out.append((mono[0] if isinstance(mono, tuple) and len(mono) == 1 else mono, c))
    return out


def share_source(d):
    """d = deal(elem.1).Some.sec_share.v: returns (deal call, elem)"""
    for s in subterms_np(d):
        if s.op == 'call' and s.a[0].endswith('Verifier::deal') and s.a[1].op == 'field' and s.a[1].a[1] == '1' and s.a[1].a[0].op == 'elem':
            if d is F(somep(s), 'sec_share', 'v'):
                return s, s.a[1].a[0]
        if s.op == 'call' and s.a[0].endswith('Verifier::deal') and s.a[1].op == 'index' and s.a[1].a[1].op == 'field' and s.a[1].a[1].a[0].op == 'elem' and d is F(somep(s), 'sec_share', 'v'):
            return s, s.a[1].a[1].a[0]
    return None, None


def pos_of(x, lst=None):
    return x


def commit_share(r, S, rec):
    """PubShare{i: j, v: coeffs[j][k]} with coeffs filled from the deals and k the coefficient being recovered"""
    i, v = F(rec, 'i'), F(rec, 'v')
    if v.op != 'index':
        return False
    k, src = v.a[1], v.a[0]
    if src.op == 'vf':
        src = src.a[0]
    # k must be the element of 0..new_t
    if not (k.op == 'elem' and show(k).startswith('elem(Range') and F(k.a[0], 'end') is F(S, 'new_t') and F(k.a[0], 'start') is int_c(0)):
        return False
    if src.op == 'index':
        return src.a[1] is i
    if src.op == 'elem':
        return i.op == 'elem' and i.a[1] == src.a[1] or i.op == 'field' and i.a[0].op == 'elem' and i.a[0].a[1] == src.a[1] or i.op == 'pos'
    return False


def visits_all(c, lists):
    """the iterator goes over all of one of the lists of equal length, alone, counted or side by side"""
    if c.op in ('imap', 'ienum', 'iinspect'):
        return visits_all(c.a[0], lists)
    if c.op == 'izip':
        return all(visits_all(x, lists) for x in c.a)
    if c.op == 'iter':
        c = c.a[0]
    if c in lists:
        return True
    return F(c, 'start') is int_c(0) and F(c, 'end') in [C('call', 'len', x) for x in lists]


def sum_at_same(it, a, b):
    coll = None
    if it.op == 'coll':
        it, coll = it.a[0], it.a[1]
        if not visits_all(coll, (a, b)):
            return False
    if it.op != 'lin':
        return False
    items = list(it.a[0])
    if len(items) != 2 or any(list(c) != [((), 1)] for p, c in items):
        return False
    keys = {}
    for p, c in items:
        if p.op in ('elem', 'index'):
            keys[p.a[0]] = p
    if set(keys) != {a, b}:
        return False
    pa, pb = keys[a], keys[b]

    def at(p):
        if p.op == 'elem':
            return ('L', p.a[1])
        k = p.a[1]
        if k.op == 'elem' and F(k.a[0], 'start') is int_c(0) and F(k.a[0], 'end') in (C('call', 'len', a), C('call', 'len', b)):
            return ('L', k.a[1])
        return ('?', p)
    return at(pa) == at(pb)


# ---------------------------------------------------------------- D08 (fresh keys)
def D08(ctx):
    for m, flags, gate in (('pedersen', [('is_resharing', False)], 'threshold_certified'), ('rabin', [], 'certified')):
        fn = m + '::dist_key_share'
        r = drun(ctx, m, 'dist_key_share', flags, extra=(gate,))
        S = r.p(1)
        vs = F(S, 'verifiers')
        for e in need_ok(ctx, r, fn):
            sh = get_raw(e.pay_raw, 'share')
            ctx.ob('share.index', fn, r.cv(get_raw(sh, 'i')) is F(S, 'nidx' if m == 'pedersen' else 'index'), 'the key share does not carry the index of this node')
            A = accum(r, get_raw(sh, 'v'), zero=is_zero_scalar)
            ok = A is not None and A.shape_ok
            ctx.ob('share.sum', fn, ok, 'the key share is not a sum of received shares')
            if ok:
                L = lloop(A)
                ctx.ob('share.zero', fn, bool(A.inits_c) and all(is_zero_scalar(x) for x in A.inits_c), 'the key share does not start from zero')
                ctx.ob('share.items', fn, all(own_share(i, vs, L) for i, g in A.steps_c), 'something else than the share dealt to this node by a qualified dealer is added')
                sel, al = over_certified(r, m, A, vs, e.facts)
                ctx.ob('share.qualified', fn, sel, 'the share of a dealer without a certified deal is added')
                ctx.ob('share.complete', fn, al, 'the share of a qualified dealer is left out')
            c = lift(get_raw(e.pay_raw, 'commits'))
            poly = c.a[0].a[1] if c.op == 'field' and c.a[0].op == 'call' and c.a[0].a[0] == POLY + 'PubPoly::info' and c.a[1] == '1' else None
            if poly is None and c.op == 'field' and c.a[1] == 'commits':
                poly = c.a[0]
            A = accum(r, poly, zero=lambda x: False) if poly is not None else None
            ok = A is not None and A.shape_ok
            ctx.ob('commits.sum', fn, ok, 'the public polynomial is not a sum of committed polynomials')
            if ok:
                L = lloop(A)
                ctx.ob('commits.items', fn, all(committed_poly(i, m, S, vs, L, g) for i, g in A.steps_c), 'something else than the polynomial committed to by a qualified dealer is added')
                sel, al = over_certified(r, m, A, vs, e.facts)
                ctx.ob('commits.qualified', fn, sel, 'the commitments of a dealer without a certified deal are added')
                ctx.ob('commits.complete', fn, al, 'the commitments of a qualified dealer are left out')


def lift(t):
    """info(x).1 joined with info(y).1 is info(x joined with y).1"""
    al = list(PHI_ALTS.get(t, ())) if t.op == 'phi' else []
    if not al or not all(x.op == 'field' and x.a[1] == '1' and x.a[0].op == 'call' and x.a[0].a[0] == POLY + 'PubPoly::info' for x in al):
        return t
    p = mk('phi', ('lift', t.a[0]))
    PHI_ALTS[p] = {x.a[0].a[1]: None for x in al}
    PHI_GATE[p] = {x.a[0].a[1]: PHI_GATE.get(t, {}).get(x, frozenset()) for x in al}
    return mk('field', mk('call', POLY + 'PubPoly::info', p), '1')


def is_zero_scalar(x):
    return x.op == 'call' and x.a[0] == 'Scalar::zero' or x.op == 'scal' and not x.a[0]


def own_share(i, vs, L):
    d, el = share_source(i)
    return el is not None and el.a[0] is vs and el.a[1] == L


def committed_poly(i, m, S, vs, L, g):
    el = C('elem', vs, L)
    key = C('field', el, '0')
    if m == 'rabin':
        return i is C('index', F(S, 'commitments'), key) and (C('has', F(S, 'commitments'), key), True) in g
    for v in (C('field', el, '1'), C('index', vs, key)):
        d = somep(vop(m, 'Verifier::deal', v))
        if i.op == 'adt' and F(i, 'commits') is F(d, 'commitments') and base_point(F(i, 'b')):
            return True
    return False


def base_point(b):
    """the standard base, given explicitly or by default"""
    if b.op == 'adt' and b.a[1] == 'None':
        return True
    x = some_of(b)
    return x is not None and (x.op == 'base' or x.op == 'call' and x.a[0].endswith('base') or show(x) == 'base()')


# ---------------------------------------------------------------- D05, D06, D07 (Rabin commitment phase)
def sc_hash(sc):
    return C('hash', bytes_of(num32(F(sc, 'index')), rep_enc(F(sc, 'commitments'))))


def cc_hash(cc):
    return C('hash', bytes_of(num32(F(cc, 'index')), num32(F(cc, 'dealer_index')), okp(C('call', 'bincode::serialize', F(cc, 'deal')))))


def share_hash(s):
    return C('hash', bytes_of(enc(F(s, 'v')), num32(F(s, 'i'))))


def rc_hash(rc):
    return C('hash', bytes_of(num32(F(rc, 'index')), num32(F(rc, 'dealer_index')), share_hash(F(rc, 'share'))))


def num32(x):
    return mk('num', 'u32', x)


def rep_enc(l):
    return C('rep', l, (enc(C('elem', l, 'L')),))


def vcovers(have, want):
    """the digest covers the same components, in any unambiguous order, behind a tag of its kind"""
    from vss import norm_part, is_tag
    if have.op != 'hash':
        return False
    hv = [part_id(p) for p in have.a[0].a if not is_tag(p)]
    wv = [part_id(p) for p in want.a[0].a if not is_tag(p)]
    return sorted(hv) == sorted(wv)


def part_id(p):
    if p.op == 'hash':
        return ('hash',) + tuple(sorted(map(str, (part_id(x) for x in p.a[0].a)))) and 'hash' + ','.join(sorted(map(str, (part_id(x) for x in p.a[0].a))))
    return str((p.a[1] if p.op == 'num' else p).id)


def tag_of(h):
    if h.op == 'hash' and h.a[0].a and h.a[0].a[0].op == 'const':
        return h.a[0].a[0]
    return None


def verified(cf, pub, want, sig):
    for f, v in cf:
        if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == SCH_V:
            c = f.a[0]
            if c.a[2] is pub and c.a[4] is sig and vcovers(c.a[3], want):
                return c.a[3]
    return None


def signed(sg, S, want):
    if sg.op == 'vf':
        sg = sg.a[0]
    if sg.op == 'call' and sg.a[0] == SCH_S and sg.a[2] is F(S, 'long') and vcovers(sg.a[3], want):
        return sg.a[3]
    return None


def tags_differ(ctx, m, tags):
    ok = all(t is not None for t in tags) and len({t.a[-1] for t in tags}) == len(tags)
    ctx.ob('kinds', 'rabin::dkg messages', ok, 'messages of different kinds are not told apart by their signed digest')


def D05(ctx):
    m = 'rabin'
    fn = 'rabin::secret_commits'
    r = drun(ctx, m, 'secret_commits')
    S = r.p(1)
    tags = []
    dc = vop(m, 'Dealer::commits', F(S, 'dealer'))
    cert = C('call', MODS[m][0] + 'Aggregator::deal_certified', F(S, 'dealer', 'aggregator'))
    for e in need_ok(ctx, r, fn):
        ctx.ob('reveal.certified', fn, (cert, True) in e.cf, 'the commitments are revealed before the own deal is certified')
        ctx.ob('reveal.content', fn, F(e.pay, 'commitments') is somep(dc) and F(e.pay, 'index') is F(S, 'index') and sid_of(F(e.pay, 'session_id'), F(S, 'dealer')),
               'the revealed commitments are not those of the own deal in its session')
        h = signed(F(e.pay, 'signature'), S, sc_hash(e.pay))
        ctx.ob('reveal.signed', fn, h is not None, 'the revealed commitments are not signed with the own key')
        tags.append(tag_of(h) if h is not None else None)
        w, base = chain(e.final(S, 'commitments'))
        ok = base is F(S, 'commitments') and len(w) == 1 and w[0][0] is F(S, 'index') and w[0][1] is not None and F(w[0][1], 'commits') is somep(dc) and base_point(F(w[0][1], 'b'))
        ctx.ob('reveal.recorded', fn, ok, 'the own commitments are not recorded under the own index')
    fn = 'rabin::process_secret_commits'
    r = drun(ctx, m, 'process_secret_commits')
    S, sc = r.p(1), r.p(2)
    i = F(sc, 'index')
    ps, vs = F(S, 'participants'), F(S, 'verifiers')
    ver = C('index', vs, i)
    deal = somep(vop(m, 'Verifier::deal', ver))
    nacc = ncomp = 0
    for e in need_ok(ctx, r, fn):
        ctx.ob('commits.index', fn, inb(e.cf, ps, i), 'commitments are processed whose index is not that of a participant')
        ctx.ob('commits.qualified', fn, in_qual_fact(e.cf, m, S, i), 'commitments of a dealer that is not qualified are processed')
        ctx.ob('commits.session', fn, any(v and f.op == 'eq' and F(sc, 'session_id') in f.a and any(sid_of(x, None, ver) for x in f.a) for f, v in e.cf), 'commitments of another session are processed')
        h = verified(e.cf, C('index', ps, i), sc_hash(sc), F(sc, 'signature'))
        ctx.ob('commits.signed', fn, h is not None, 'commitments are processed without the signature of their dealer')
        chk = poly_check_fact(e.cf, lambda p: F(p, 'commits') is F(sc, 'commitments') and base_point(F(p, 'b')), F(deal, 'sec_share'))
        for leaf, g in value_alts(e.pay_raw, e.facts):
            c, cf = r.cv(leaf), canon_facts(r.N, g)
            chk = poly_check_fact(cf, lambda p: F(p, 'commits') is F(sc, 'commitments') and base_point(F(p, 'b')), F(deal, 'sec_share'))
            if c.op == 'adt' and c.a[1] == 'None':
                nacc += 1
                ctx.ob('commits.checked', fn, chk is True, 'commitments are accepted that the own share does not lie on')
                fin = [x for x, gg in value_alts(e.final_raw(S, 'commitments'), e.facts) if not contradict(canon_facts(r.N, gg), cf)]
                for x in fin:
                    w, base = chain(r.cv(x))
                    ctx.ob('commits.recorded', fn, base is F(S, 'commitments') and len(w) == 1 and w[0][0] is i and w[0][1] is not None and F(w[0][1], 'commits') is F(sc, 'commitments') and base_point(F(w[0][1], 'b')),
                           'accepted commitments are not recorded under the index of their dealer')
            else:
                ncomp += 1
                cc = some_of(c) or agg_of(c)
                ctx.ob('complaint.justified', fn, chk is False, 'a complaint is issued although the own share lies on the commitments')
                ctx.ob('complaint.content', fn, F(cc, 'index') is F(S, 'index') and F(cc, 'dealer_index') is i and F(cc, 'deal') is deal, 'the complaint does not carry the own deal of that dealer')
                h = signed(F(cc, 'signature'), S, cc_hash(cc))
                ctx.ob('complaint.signed', fn, h is not None, 'the complaint is not signed')
                tags.append(tag_of(h) if h is not None else None)
        if not any(r.cv(l).op == 'adt' and r.cv(l).a[1] == 'None' for l, g in value_alts(e.pay_raw)):
            ctx.ob('commits.unrecorded', fn, e.final(S, 'commitments') is F(S, 'commitments'), 'commitments that are complained about are recorded')
    for e in r.errs():
        ctx.ob('commits.rejected', fn, e.final(S, 'commitments') is F(S, 'commitments'), 'rejected commitments are recorded')
    ctx.ob('commits.some', fn, nacc > 0 and ncomp > 0, 'commitments are never accepted, or never complained about')
    tags_differ(ctx, m, tags[:2])


def contradict(a, b):
    return any((f, not v) in b for f, v in a)


def sid_of(x, dealer=None, verifier=None):
    if dealer is not None:
        return x is F(dealer, 'session_id') or x.op == 'call' and x.a[0].endswith('Dealer::session_id') and x.a[1] is dealer
    if x.op == 'call' and x.a[0].endswith('::session_id'):
        return x.a[1] is verifier
    return x is F(somep(F(verifier, 'aggregator')), 'sid')


def poly_check_fact(cf, okpoly, share):
    for f, v in cf:
        if f.op == 'call' and f.a[0] == POLY + 'PubPoly::check' and okpoly(f.a[1]) and f.a[2] is share:
            return v
    return None


def D06(ctx):
    m = 'rabin'
    fn = 'rabin::process_complaint_commits'
    r = drun(ctx, m, 'process_complaint_commits')
    S, cc = r.p(1), r.p(2)
    ps, vs, cm = F(S, 'participants'), F(S, 'verifiers'), F(S, 'commitments')
    i, d = F(cc, 'index'), F(cc, 'dealer_index')
    ver = C('index', vs, d)
    for e in need_ok(ctx, r, fn):
        ctx.ob('complaint.index', fn, inb(e.cf, ps, i), 'a complaint is processed whose index is not that of a participant')
        ctx.ob('complaint.qualified', fn, in_qual_fact(e.cf, m, S, i), 'a complaint of a participant that is not qualified is processed')
        ctx.ob('complaint.signed', fn, verified(e.cf, C('index', ps, i), cc_hash(cc), F(cc, 'signature')) is not None, 'a complaint is processed without the signature of its issuer')
        ctx.ob('complaint.dealer', fn, (C('has', vs, d), True) in e.cf, 'a complaint about an unknown dealer is processed')
        vd = [f.a[0] for f, v in e.cf if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('::verify_deal')]
        ok = any(c.a[2] is F(cc, 'deal') and zero_c(c.a[3]) and (c.a[1] is ver or c.a[1] is somep(F(ver, 'aggregator'))) for c in vd)
        ctx.ob('complaint.deal', fn, ok, 'a complaint is processed whose deal does not verify against the dealing')
        ctx.ob('complaint.committed', fn, (C('has', cm, d), True) in e.cf, 'a complaint is processed although the dealer has no commitments')
        ctx.ob('complaint.fails', fn, poly_check_fact(e.cf, lambda p: p is C('index', cm, d), F(cc, 'deal', 'sec_share')) is False, 'the commitments are invalidated although the complained share lies on them')
        sh = F(e.pay, 'share')
        dls = [s for s in subterms_np(sh) if s.op == 'call' and s.a[0] == MODS[m][0] + 'Verifier::deal']
        ok = any(sh is F(somep(c), 'sec_share') and derived(c.a[1], ver, (MODS[m][0] + 'Verifier::verify_deal', MODS[m][0] + 'Aggregator::verify_deal')) for c in dls)
        ctx.ob('reveal.share', fn, ok, 'the share revealed for reconstruction is not the one dealt to this node by that dealer')
        ctx.ob('reveal.content', fn, F(e.pay, 'index') is F(S, 'index') and F(e.pay, 'dealer_index') is d and F(e.pay, 'session_id') is F(cc, 'deal', 'session_id'), 'the revealed share is not labelled with own index, dealer and session')
        ctx.ob('reveal.signed', fn, signed(F(e.pay, 'signature'), S, rc_hash(e.pay)) is not None, 'the revealed share is not signed')
        w, base = chain(e.final(S, 'commitments'))
        ctx.ob('complaint.invalidates', fn, base is cm and w and w[0] == (d, None), 'the commitments stay valid after a valid complaint')
        pr = F(S, 'pending_reconstruct')
        w, base = chain(e.final(S, 'pending_reconstruct'))
        ok = base is pr and w and w[0][0] is d and w[0][1] is not None and any(x is e.pay for x in subterms_np(w[0][1]))
        ctx.ob('reveal.recorded', fn, ok, 'the own revealed share is not recorded for the reconstruction')
    for e in r.errs():
        ok = e.final(S, 'commitments') is cm
        if not ok:
            # signing may fail after the commitments were invalidated
            w, base = chain(e.final(S, 'commitments'))
            ok = base is cm and all(k is d and v is None for k, v in w) and poly_check_fact(e.cf, lambda p: p is C('index', cm, d), F(cc, 'deal', 'sec_share')) is False
        if not ok:
            for x, g in value_alts(e.final_raw(S, 'commitments'), e.facts):
                c = r.cv(x)
                w, base = chain(c)
                cf = canon_facts(r.N, g)
                ok = c is cm or base is cm and all(k is d and v is None for k, v in w) and poly_check_fact(cf, lambda p: p is C('index', cm, d), F(cc, 'deal', 'sec_share')) is False
                if not ok:
                    break
        ctx.ob('complaint.rejected', fn, ok, 'a rejected complaint invalidates commitments')


def D07(ctx):
    m = 'rabin'
    fn = 'rabin::process_reconstruct_commits'
    r = drun(ctx, m, 'process_reconstruct_commits')
    S, rc = r.p(1), r.p(2)
    ps, cm, rec, pend = F(S, 'participants'), F(S, 'commitments'), F(S, 'reconstructed'), F(S, 'pending_reconstruct')
    i, d = F(rc, 'index'), F(rc, 'dealer_index')
    lst = C('index', pend, d)
    nstore = nrec = 0
    for e in need_ok(ctx, r, fn):
        for x, g in value_alts(e.final_raw(S, 'pending_reconstruct'), e.facts):
            c, cf = r.cv(x), canon_facts(r.N, g)
            if not any(s is rc for s in subterms_np(c)):
                # nothing recorded: an empty list may have been created
                continue
            nstore += 1
            guard(ctx, fn, r, cf, S, rc, ps, rec, cm, i, d, lst)
            w, base = chain(c)
            ctx.ob('reveal.under', fn, base is pend and all(k is d for k, v in w), 'a revealed share is recorded for another dealer')
        for x, g in value_alts(e.final_raw(S, 'commitments'), e.facts):
            c, cf = r.cv(x), canon_facts(r.N, g)
            if c is cm:
                continue
            nrec += 1
            guard(ctx, fn, r, cf, S, rc, ps, rec, cm, i, d, lst)
            w, base = chain(c)
            ok = base is cm and len(w) == 1 and w[0][0] is d and w[0][1] is not None
            v = w[0][1] if ok else None
            ok = ok and v.op == 'call' and v.a[0] == POLY + 'PriPoly::commit' and base_point(v.a[2]) and v.a[1].op == 'vf' and v.a[1].a[0].a[0] == POLY + 'recover_pri_poly'
            ctx.ob('rebuild.value', fn, ok, 'the commitments recorded are not those of the polynomial recovered from the revealed shares')
            if not ok:
                continue
            rp = v.a[1].a[0]
            ctx.ob('rebuild.threshold', fn, rp.a[3] is F(S, 't') and rp.a[4] is C('call', 'len', ps), 'the polynomial is not recovered with the threshold and number of participants')
            lens = [C('call', 'len', s) for s in all_sub(c) if s.op == 'bytes' and rc in s.a and lst in s.a]
            ok = any(leq((F(S, 't'), 1), (n, -1)) in ineqs(cf) for n in lens) or any(leq((F(S, 't'), 1), (C('call', 'len', s), -1)) in ineqs(cf) for f, vv in cf for s in subterms_np(f) if s.op == 'bytes' and rc in s.a and lst in s.a)
            ctx.ob('rebuild.enough', fn, ok, 'the polynomial is recovered from fewer revealed shares than the threshold')
            raw = [s for s in all_sub(x) if s.op == 'call' and s.a[0] == POLY + 'recover_pri_poly']
            n = bad = 0
            for s in raw:
                for q in all_sub(s.a[2]):
                    rr = some_of(r.cv(unprev(q))) if q.op == 'adt' and q.a[1] == 'Some' else None
                    if rr is None:
                        continue
                    n += 1
                    ok = rr.op == 'field' and rr.a[1] == 'share' and revealed_list(rr.a[0], lst, rc)
                    bad += not ok
            ctx.ob('rebuild.shares', fn, n > 0 and not bad, 'the polynomial is recovered from something else than the shares revealed for that dealer')
        # marked exactly when reconstructed
        for x, g in value_alts(e.final_raw(S, 'reconstructed'), e.facts):
            c, cf = r.cv(x), canon_facts(r.N, g)
            if c is rec:
                continue
            w, base = chain(c)
            ctx.ob('rebuild.marked', fn, base is rec and len(w) == 1 and w[0][0] is d and any(v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == POLY + 'recover_pri_poly' for f, v in cf),
                   'a dealer is marked as reconstructed without its polynomial being recovered')
    ctx.ob('rebuild.possible', fn, nstore > 0 and nrec > 0, 'revealed shares are never recorded, or the commitments never rebuilt')
    for e in r.errs():
        ctx.ob('reveal.rejected', fn, e.final(S, 'commitments') is cm and e.final(S, 'reconstructed') is rec, 'a rejected message changes the commitments')


def revealed_list(x, lst, rc):
    """x is an element of the recorded list with the new record appended"""
    if x.op not in ('elem', 'index'):
        return False
    c = x.a[0]
    return c.op == 'bytes' and lst in c.a and rc in c.a and len(c.a) == 2 or c is lst


def guard(ctx, fn, r, cf, S, rc, ps, rec, cm, i, d, lst):
    ctx.ob('reveal.pending', fn, (C('has', rec, d), False) in cf, 'a revealed share is used although the dealer is already reconstructed')
    ctx.ob('reveal.invalidated', fn, (C('has', cm, d), False) in cf, 'a revealed share is used although the commitments of the dealer are valid')
    ctx.ob('reveal.index', fn, inb(cf, ps, i), 'a revealed share is used whose index is not that of a participant')
    ctx.ob('reveal.signed', fn, verified(cf, C('index', ps, i), rc_hash(rc), F(rc, 'signature')) is not None, 'a revealed share is used without the signature of its participant')
    once = any(not v and f.op == 'eq' and i in f.a and any(y.op == 'field' and y.a[1] == 'index' and y.a[0].op == 'elem' and y.a[0].a[0] is lst and is_each(y.a[0]) for y in f.a) for f, v in cf)
    ctx.ob('reveal.once', fn, once, 'a second share revealed by the same participant is used')
    ses = any(v and f.op == 'eq' and F(rc, 'session_id') in f.a and any(y.op == 'field' and y.a[1] == 'session_id' and y.a[0].op == 'elem' and y.a[0].a[0] is lst and is_each(y.a[0]) for y in f.a) for f, v in cf)
    ctx.ob('reveal.session', fn, ses, 'shares revealed for different sessions are combined')


# ---------------------------------------------------------------- D09 (set-up)
def own_position(t, facts, r, lst, key):
    """the facts state that the element of the list at position t is the public key of key"""
    c = r.cv(t)
    for f, v in canon_facts(r.N, facts):
        if v and f.op == 'eqp' and len(f.a[0]) == 2:
            pts = {p: dict(co) for p, co in f.a[0]}
            b = [p for p in pts if p.op in ('base',) or show(p) == 'base()']
            x = [p for p in pts if p.op in ('elem', 'index') and p.a[0] is lst]
            if len(b) == 1 and len(x) == 1:
                co = list(pts[b[0]].items())
                if len(co) != 1 or co[0][1] not in (1, -1) or co[0][0] != (key,):
                    continue
                p = x[0]
                if p.op == 'index' and p.a[1] is c or p.op == 'elem' and c.op == 'elem' and c.a[1] == p.a[1] and F(c.a[0], 'start') is int_c(0):
                    return True
    return False


def is_stream(t, suite):
    return t.op == 'call' and t.a[0] == 'Random::random_stream' and t.a[1] is suite


def D09(ctx):
    m = 'rabin'
    fn = 'rabin::new_dist_key_generator'
    r = ctx.run(DR + 'new_dist_key_generator', opaque=ops(m))
    su, lt, ps, t = r.p(1), r.p(2), r.p(3), r.p(4)
    for e in need_ok(ctx, r, fn):
        for leaf, g in field_alts(e.pay_raw, ['index'], e.facts):
            ctx.ob('setup.index', fn, own_position(uncast(leaf), g, r, ps, lt), 'the own index is not that of the own public key among the participants')
        d = F(e.pay, 'dealer')
        d = d.a[0] if d.op == 'vf' else d
        ok = d.op == 'call' and d.a[0] == MODS[m][0] + 'new_dealer' and d.a[1] is su and d.a[2] is lt and d.a[4] is ps and d.a[5] is t
        ctx.ob('setup.dealer', fn, ok, 'the dealer is not set up with the own key, the participants and the threshold')
        if ok:
            s = d.a[3]
            ctx.ob('setup.secret', fn, s.op == 'call' and s.a[0] == 'Scalar::pick' and is_stream(s.a[-1], su), 'the secret that is dealt is not fresh and random')
        ok = F(e.pay, 'suite') is su and F(e.pay, 'long') is lt and F(e.pay, 'participants') is ps and F(e.pay, 't') is t
        ctx.ob('setup.fields', fn, ok, 'the parameters are not kept as given')
        ctx.ob('setup.empty', fn, all(F(e.pay, x).op == 'call' and F(e.pay, x).a[0] in EMPTY or F(e.pay, x) is C('bytes') for x in ('verifiers', 'commitments', 'reconstructed', 'pending_reconstruct')), 'a new protocol run does not start empty')
    m = 'pedersen'
    fn = 'pedersen::new_dist_key_handler'
    c0 = mk('param', 1, 'c')

    def isv(f, v):
        return mk('is', mk('field', c0, f), 'Some'), v
    for nm, asm in (('fresh', [isv('share', False), isv('public_coeffs', False)]), ('share', [isv('share', True)]), ('new', [isv('share', False), isv('public_coeffs', True)])):
        r = ctx.run(DP + 'new_dist_key_handler', opaque=ops(m), assume=asm)
        c = r.p(1)
        su, lt, nn, on = F(c, 'suite'), F(c, 'longterm'), F(c, 'new_nodes'), F(c, 'old_nodes')
        ndeal = nver = 0
        for e in need_ok(ctx, r, fn):
            pay = e.pay
            for leaf, g in field_alts(e.pay_raw, ['is_resharing'], e.facts):
                b = bool(leaf.a[1]) if leaf.op == 'const' else next((v for f, v in canon_facts(r.N, g) if f is r.cv(leaf)), None)
                ctx.ob('setup.mode', fn, b == (nm != 'fresh'), 'the protocol runs in the wrong mode')
            for fld_, lst, pres in (('nidx', nn, 'new_present'), ('oidx', on, 'old_present')):
                for leaf, g in field_alts(e.pay_raw, [fld_], e.facts):
                    x = uncast(leaf)
                    if x.op == 'const':
                        continue
                    ok = own_position(x, g, r, lst, lt) or fld_ == 'oidx' and nm == 'fresh' and own_position(x, g, r, nn, lt)
                    ctx.ob('setup.index', fn, ok, 'the own index is not that of the own public key among the nodes')
                for leaf, g in field_alts(e.pay_raw, [pres], e.facts):
                    if zero_c(leaf):
                        continue
                    cf = canon_facts(r.N, g)
                    ok = any(v and f.op == 'eqp' and len(f.a[0]) == 2 and any(p.op in ('elem', 'index') and p.a[0] in (lst, nn) for p, co in f.a[0]) for f, v in cf)
                    ctx.ob('setup.present', fn, ok, 'a node counts as member although its public key is not listed')
            for leaf, g in field_alts(e.pay_raw, ['can_receive'], e.facts):
                if not zero_c(leaf):
                    cf = canon_facts(r.N, g)
                    ok = any(v and f.op == 'eqp' and any(p.op in ('elem', 'index') and p.a[0] is nn for p, co in f.a[0]) for f, v in cf)
                    ctx.ob('setup.receive', fn, ok, 'a node outside the new group receives a share')
            for leaf, g in field_alts(e.pay_raw, ['new_t'], e.facts):
                threshold_ok(ctx, fn, r, leaf, g, c, nn)
            for leaf, g in field_alts(e.pay_raw, ['dealer'], e.facts):
                d = r.cv(leaf)
                if d is C('bytes') or d.op == 'call' and d.a[0].endswith('default'):
                    continue
                ndeal += 1
                d = d.a[0] if d.op == 'vf' else d
                ok = d.op == 'call' and d.a[0] == MODS[m][0] + 'new_dealer' and d.a[1] is su and d.a[2] is lt and d.a[4] is nn
                ctx.ob('setup.dealer', fn, ok, 'the dealer is not set up with the own key and the new nodes')
                if not ok:
                    continue
                lc = leaf.a[0] if leaf.op == 'vf' else leaf
                for l2, g2 in value_alts(lc.a[5], g):
                    threshold_ok(ctx, fn, r, l2, g2, c, nn)
                s = d.a[3]
                if nm == 'share':
                    ctx.ob('setup.secret', fn, s is F(somep(F(c, 'share')), 'share', 'v'), 'the secret that is reshared is not the own share')
                else:
                    ok = s.op == 'call' and s.a[0] == 'Scalar::pick'
                    ctx.ob('setup.secret', fn, ok and nm == 'fresh', 'the secret that is dealt is not fresh and random')
                    if ok:
                        sc = lc.a[3]
                        for l3, g3 in pick_streams(sc, g):
                            cf = canon_facts(r.N, g3)
                            only = (F(c, 'user_reader_only'), True) in cf
                            ok = entropy(r, l3) or only
                            ctx.ob('setup.entropy', fn, ok, 'the secret is drawn without system randomness although the caller\'s source is not declared the only one')
            ctx.ob('setup.deals', fn, (ndeal > 0) == (nm != 'new'), 'a dealer is set up for a node without a secret, or none for one with a secret')
            for leaf, g in field_alts(e.pay_raw, ['dpub'], e.facts):
                d = r.cv(leaf)
                if d is C('bytes') or d.op == 'call' and d.a[0].endswith('default'):
                    continue
                bad = [x for x, g2 in field_alts(leaf, ['commits'], g) if r.cv(x) not in (somep(F(c, 'public_coeffs')), F(somep(F(c, 'share')), 'commits'))]
                ctx.ob('setup.public', fn, not bad and base_point(F(d, 'b')) and nm != 'fresh', 'the old public polynomial is not the configured one')
            for leaf, g in field_alts(e.pay_raw, ['old_t'], e.facts):
                x = r.cv(leaf)
                if zero_c(x):
                    continue
                ok = x.op == 'call' and x.a[0] == 'len' and all(r.cv(y) in (somep(F(c, 'public_coeffs')), F(somep(F(c, 'share')), 'commits')) for y in len_alts(leaf, g))
                ctx.ob('setup.old-threshold', fn, ok, 'the old threshold is not the number of coefficients of the old public polynomial')
            A = accum(r, get_raw(e.pay_raw, 'verifiers'))
            ok = A is not None and A.shape_ok
            ctx.ob('setup.verifiers', fn, ok, 'no verifier is set up for the dealers')
            if ok:
                L = lloop(A)
                want = nn if nm == 'fresh' else on
                for i, g in A.steps_c:
                    k, v = i.a[0], i.a[1]
                    k = uncast(k)
                    nvs = {s for s in subterms_np(v) if s.op == 'call' and s.a[0] == MODS[m][0] + 'new_verifier'}
                    ok = len(nvs) == 1
                    if ok:
                        nv = nvs.pop()
                        dk = nv.a[3]
                        ok = nv.a[2] is lt and nv.a[4] is nn and derived_agg(v, okp(nv)) and (
                            dk.op == 'elem' and dk.a[0] is want and dk.a[1] == L and k.op == 'elem' and k.a[1] == L and F(k.a[0], 'start') is int_c(0) or
                            dk.op == 'index' and dk.a[0] is want and uncast(dk.a[1]) is k)
                        st = {s for s in subterms_np(v) if s.op == 'mut' and s.a[0] == MODS[m][0] + 'Aggregator::set_threshold'}
                        ctx.ob('setup.approvals', fn, bool(st), 'a dealer determines the number of approvals its deal needs')
                        for x in st:
                            for l2, g2 in value_alts(x.a[3], frozenset(g)):
                                threshold_ok(ctx, fn, r, l2, g2, c, nn)
                    ctx.ob('setup.verifier', fn, ok, 'the verifier at an index is not set up for the dealer at that index, the own key and the new nodes')
                nonew = [g for g in A.keeps_c]
                ctx.ob('setup.all', fn, not nonew, 'a dealer is left without a verifier')


def derived_agg(t, base):
    while t is not base:
        if t.op == 'upd':
            t = t.a[0]
        elif t.op == 'mut':
            t = t.a[2 + t.a[1]]
        else:
            return False
    return True


def len_alts(t, g):
    """what the length is taken of"""
    x = t
    while x.op == 'cast':
        x = x.a[1]
    if x.op == 'call' and x.a[0] == 'len':
        x = x.a[1]
    if x.op == 'vf' and x.a[0].op == 'phi':
        return [agg_of(y) for y, _ in value_alts(x.a[0], g)]
    return [y for y, _ in value_alts(x, g)]


def threshold_ok(ctx, fn, r, leaf, g, c, nn):
    x, cf = r.cv(leaf), canon_facts(r.N, g)
    th = F(c, 'threshold')
    n = C('call', 'len', nn)
    from rules.cross import _halves
    if x is th:
        ok = has_eq(cf, th, int_c(0), False) or (C('eq', int_c(0), th), False) in cf or any(not v and f.op == 'eq' and th in f.a and any(zero_c(y) for y in f.a) for f, v in cf) or any(l == leq((th, -1), (None, 1)) for l in ineqs(cf))
        ctx.ob('setup.threshold', fn, ok, 'a threshold of zero is used')
    else:
        ctx.ob('setup.threshold', fn, x.op == 'bin' and x.a[0] in ('Div', 'Shr') and uncast(x.a[1]).op == 'bin' and leq((x.a[1], 1)) == leq((n, 1), (None, 1)) and x.a[2].op == 'const' and x.a[2].a[1] == (2 if x.a[0] == 'Div' else 1) or min_t(x, nn) or [_halves(x, n, p) for p in (0, 1)] == [(1, 0), (1, 1)],
               'the default threshold is not the minimum one')


def min_t(x, nn):
    return x.op == 'call' and x.a[0].endswith('minimum_t') and x.a[1] is C('call', 'len', nn)


def pick_streams(sc, g):
    """the streams a picked scalar can come from"""
    x = sc
    while x.op == 'mut':
        x = x.a[2]
    if x.op == 'call' and x.a[0] == 'Scalar::pick':
        s = x.a[-1]
        out = []
        for l, g2 in value_alts(s, g):
            if l.op == 'adt':
                for y, g3 in value_alts(get_raw(l, 'readers'), g2):
                    out.append((y, g3))
            elif l.op == 'upd':
                for y, g3 in value_alts(get_raw(l, 'readers'), g2):
                    out.append((y, g3))
            else:
                out.append((l, g2))
        return out
    return [(sc, g)]


def entropy(r, t):
    """the stream reads from the operating system"""
    c = r.cv(t)
    return any(s.op == 'call' and (s.a[0].endswith('from_entropy') or s.a[0].endswith('OsRng::default') or s.a[0].endswith('thread_rng')) or 'OsRng' in str(s.a[:2]) for s in all_sub(c)) or c.op == 'call' and c.a[0].endswith('Random::random_stream') or c is C('bytes')
