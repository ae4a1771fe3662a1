"""Signature schemes: Schnorr, EdDSA and the distributed signature (DSS)."""
from lib import *
from norm import B

PH = ()


def num_eq(cf, a, b):
    if a is b:
        return True
    if has_eq(cf, a, b):
        return True
    return (C('lt', a, b), False) in cf and (C('lt', b, a), False) in cf


def c_int(n):
    return mk('const', 'int', n)


def split_points():
    return [c_int(32), C('size', 'point')]


def check_verify(ctx, fn, pub_bytes, pub_term, msg, sig, r):
    """acceptance condition of a (R || s) signature verifier on every success exit"""
    oks = r.oks()
    if not oks:
        ctx.bad('sig.accept', fn, 'no accepting exit found')
        return
    for e in oks:
        cf = e.cf
        best = None
        for k in split_points():
            Rb = C('slice', sig, c_int(0), k)
            Sb = [C('slice', sig, k, C('end')), C('slice', sig, k, c_int(64))]
            R = C('dec', 'point', bytes_of(Rb))
            for sb in Sb:
                s = C('dec', 'scalar', bytes_of(sb))
                As = [C('dec', 'point', bytes_of(x)) for x in pub_bytes] + ([pub_term] if pub_term is not None else [])
                for A in As:
                    for p1 in (Rb, enc(R)):
                        for p2 in tuple(pub_bytes) + (enc(A),):
                            h = C('scb', bytes_of(C('hash', bytes_of(p1, p2, msg))))
                            want = eqp((B, {(s,): 1}), (R, {(): -1}), (A, {(h,): -1}))
                            if (want, True) in cf:
                                best = (k, Rb, sb, R, s, A)
        ctx.ob('sig.equation', fn, best is not None,
               'a success exit is not dominated by the check s*B == R + H(R||A||msg)*A over the decoded signature and public key')
        if best is None:
            continue
        k, Rb, sb, R, s, A = best
        n = C('call', 'len', sig)
        tot = [c_int(64), r.cv(mk('bin', 'Add', mk('x'), mk('y')))]
        okl = num_eq(cf, n, c_int(64))
        for f, v in cf:
            if v and f.op == 'eq' and n in f.a:
                o = f.a[0] if f.a[1] is n else f.a[1]
                if o.op == 'bin' and o.a[0] == 'Add' and {x for x in o.a[1:]} == {C('size', 'point'), C('size', 'scalar')}:
                    okl = True
        ctx.ob('sig.length', fn, okl, 'a signature is accepted without checking that its length is exactly one point and one scalar')
        ctx.ob('sig.s-canonical', fn, (C('canonical', 'scalar', bytes_of(sb)), True) in cf,
               'a signature is accepted without requiring the scalar half to be canonical (malleability)')
        ctx.ob('sig.R-canonical', fn, (C('canonical', 'point', bytes_of(Rb)), True) in cf,
               'a signature is accepted without requiring the encoding of R to be canonical')
        ctx.ob('sig.R-order', fn, (C('small_order', R), False) in cf,
               'a signature is accepted without rejecting a small-order R')
        pc = any((C('canonical', 'point', bytes_of(x)), True) in cf for x in pub_bytes)
        ctx.ob('sig.A-canonical', fn, pc, 'a signature is accepted without requiring the encoding of the public key to be canonical')
        ctx.ob('sig.A-order', fn, (C('small_order', A), False) in cf,
               'a signature is accepted under a small-order public key')


def S01(ctx):
    r = ctx.run('sign::schnorr::schnorr_sig::verify', opaque=())
    pub = r.p(2)
    check_verify(ctx, 'schnorr::verify', [enc(pub)], pub, r.p(3), r.p(4), r)
    r = ctx.run('sign::eddsa::eddsa_sig::verify_with_checks', opaque=())
    check_verify(ctx, 'eddsa::verify_with_checks', [r.p(1)], None, r.p(2), r.p(3), r)
    r = ctx.run('sign::eddsa::eddsa_sig::verify', opaque=())
    check_verify(ctx, 'eddsa::verify', [enc(r.p(1))], r.p(1), r.p(2), r.p(3), r)
    r = ctx.run('sign::dss::dss_sig::verify', opaque=())
    check_verify(ctx, 'dss::verify', [enc(r.p(1))], r.p(1), r.p(2), r.p(3), r)


def sign_eq(ctx, fn, r, pay, pubs, pub_as_B, msg, raw=False):
    """(enc(R) || enc(s)) satisfies s*B == R + h*A with h = H(R||A||msg), for all keys and messages"""
    N = r.N
    parts = pay.a if pay.op == 'bytes' else None
    ok = False
    why = 'the result is not enc(R) || enc(s)'
    k = None
    if parts is not None and len(parts) == 2 and all(p.op == 'enc' for p in parts):
        Rt, st = parts[0].a[0], parts[1].a[0]
        Rl = N.pt(Rt)
        sp = N.sc(st)
        why = 'the signing equation s*B == R + H(R||A||msg)*A does not hold identically'
        for A in pubs:
            h = C('scb', bytes_of(C('hash', bytes_of(enc(Rt), enc(A), msg))))
            from norm import l_add, l_scale, p_atom
            left = l_scale({B: {(): 1}}, sp)
            right = l_add(Rl, l_scale(pub_as_B(A), p_atom(h)))
            d = l_add(left, right, -1)
            if not d:
                ok = True
                k = Rl
    ctx.ob('sign.equation', fn, ok, why)
    return k


def S02(ctx):
    from norm import p_atom
    # Schnorr
    r = ctx.run('sign::schnorr::schnorr_sig::sign', opaque=())
    x = r.p(2)
    oks = r.oks()
    if not oks:
        ctx.bad('sign.equation', 'schnorr::sign', 'no success exit')
    for e in oks:
        A = r.N.fl({B: {(x,): 1}})
        sign_eq(ctx, 'schnorr::sign', r, e.pay, [A], lambda A: {B: {(x,): 1}}, r.p(3))
    # EdDSA: self.public == self.secret * B is established by every constructor (S06)
    r = ctx.run('sign::eddsa::eddsa_sig::EdDSA::sign', opaque=())
    sec, pub = r.p(1, 'secret'), r.p(1, 'public')
    oks = r.oks()
    if not oks:
        ctx.bad('sign.equation', 'EdDSA::sign', 'no success exit')
    for e in oks:
        A2 = r.N.fl({B: {(sec,): 1}})
        sign_eq(ctx, 'EdDSA::sign', r, e.pay, [pub, A2], lambda A: {B: {(sec,): 1}}, r.p(2))
    # DSS: the partial signature is a share of the same equation
    r = ctx.run('sign::dss::dss_sig::DSS::partial_sig', opaque=PROTO)
    S = r.p(1)
    for e in need_ok(ctx, r, 'DSS::partial_sig'):
        v = r.N.sc(fld(fld(e.pay, 'partial'), 'v'))
        h = dss_hash(r, S)
        a = p_atom(r.cv(mk('field', mk('call', 'DistKeyShare::pri_share', mk('field', S, 'long')), 'v')))
        b = p_atom(r.cv(mk('field', mk('call', 'DistKeyShare::pri_share', mk('field', S, 'random')), 'v')))
        from norm import p_add, p_mul
        ctx.ob('dss.partial-equation', 'DSS::partial_sig', any(v == p_add(b, p_mul(a, p_atom(x))) for x in h),
               'the partial signature is not beta_i + H(R||A||msg)*alpha_i')
        ctx.ob('dss.partial-index', 'DSS::partial_sig', fld(fld(e.pay, 'partial'), 'i') is mk('field', S, 'index'),
               'the partial signature does not carry the index of the signer')
        ctx.ob('dss.partial-session', 'DSS::partial_sig', fld(e.pay, 'session_id') is mk('field', S, 'session_id'),
               'the partial signature is not bound to the session')
        want = C('call', 'sign::schnorr::schnorr_sig::sign')
        sg = fld(e.pay, 'signature')
        good = False
        if sg.op == 'vf' and sg.a[0].op == 'call' and sg.a[0].a[0] == SCH_S:
            _, _, key, m = sg.a[0].a
            good = key is mk('field', S, 'secret') and ps_hash_ok(ctx, m, fld(e.pay, 'partial'), fld(e.pay, 'session_id'))
        ctx.ob('dss.partial-signed', 'DSS::partial_sig', good, 'the partial signature is not signed, over share and session, by the long-term key')
    r = ctx.run('sign::dss::dss_sig::DSS::signature', opaque=PROTO)
    S = r.p(1)
    for e in need_ok(ctx, r, 'DSS::signature'):
        R0s = [C('enc', x) for x in first_commits(r, S, 'random')]
        p = e.pay
        good = p.op == 'bytes' and len(p.a) == 2 and p.a[0] in R0s and p.a[1].op == 'enc' and is_recovered(p.a[1].a[0])
        ctx.ob('dss.final', 'DSS::signature', good, 'the distributed signature is not R || recovered s')


def need_ok(ctx, r, fn):
    oks = r.oks()
    if not oks:
        ctx.bad('exits', fn, 'no success exit')
    return oks


def first_commits(r, S, which):
    out = [r.cv(mk('index', mk('call', 'DistKeyShare::commitments', mk('field', S, which)), mk('const', 'int', 0)))]
    out.append(r.cv(mk('index', mk('field', mk('field', S, which + '_poly'), 'commits'), mk('const', 'int', 0))))
    return out


def dss_hash(r, S):
    out = []
    for R in first_commits(r, S, 'random'):
        for A in first_commits(r, S, 'long'):
            out.append(C('scb', bytes_of(C('hash', bytes_of(enc(R), enc(A), mk('field', S, 'msg'))))))
    return out


def ps_hash_ok(ctx, m, partial, sid):
    """m covers the share value, the share index and the session id"""
    need = {enc(fld(partial, 'v')): 0, fld(partial, 'i'): 0, sid: 0}
    subs = subterms_np(m)
    return m.op in ('hash', 'bytes') and all(n in subs for n in need)


def is_recovered(t):
    return t.op == 'vf' and t.a[0].op == 'call' and t.a[0].a[0] == 'share::poly::recover_secret'


def S03(ctx):
    # Schnorr: the nonce is a fresh pick from the suite's random stream, nothing else
    r = ctx.run('sign::schnorr::schnorr_sig::sign', opaque=())
    for e in need_ok(ctx, r, 'schnorr::sign'):
        parts = e.pay.a if e.pay.op == 'bytes' else ()
        ok = False
        if parts and parts[0].op == 'enc':
            l = r.N.pt(parts[0].a[0])
            if list(l) == [B]:
                k = l[B]
                ok = len(k) == 1 and all(c == 1 and len(m) == 1 and is_fresh_pick(m[0], r.p(1)) for m, c in k.items())
        ctx.ob('nonce.fresh', 'schnorr::sign', ok, 'the nonce is not exactly one scalar picked from the random stream of the suite')
    # EdDSA: deterministic nonce = H(prefix || msg)
    r = ctx.run('sign::eddsa::eddsa_sig::EdDSA::sign', opaque=())
    for e in need_ok(ctx, r, 'EdDSA::sign'):
        parts = e.pay.a if e.pay.op == 'bytes' else ()
        ok = False
        if parts and parts[0].op == 'enc':
            l = r.N.pt(parts[0].a[0])
            want = C('scb', bytes_of(C('hash', bytes_of(r.p(1, 'prefix'), r.p(2)))))
            ok = l == {B: {(want,): 1}}
        ctx.ob('nonce.derived', 'EdDSA::sign', ok, 'the nonce is not the hash of the secret prefix followed by the whole message')
    # every constructor fills the prefix with secret-derived bytes
    for nm, e, pre, r in eddsa_ctors(ctx):
        if nm.startswith('Default'):
            continue
        ok = secret_prefix(pre, r)
        ctx.ob('nonce.prefix', nm, ok, 'the key is built with a prefix that is not the upper half of a hash of its secret')


def secret_prefix(pre, r):
    """upper half of a hash over secret material (the seed bytes or the private scalar)"""
    return pre.op == 'slice' and pre.a[1] is c_int(32) and pre.a[2].op in ('end',) and pre.a[0].op == 'hash' and has_secret(pre.a[0], r)


def has_secret(h, r):
    for p in h.a[0].a:
        if is_seed(p, r):
            return True
        if any(x.op == 'field' and x.a[1] == 'private' for x in subterms_np(p)):
            return True
    return False


def is_seed(p, r):
    """32 bytes drawn from the caller's stream, or the seed half of an encoded key"""
    if p.op == 'bytes' and len(p.a) == 1:
        p = p.a[0]
    if p.op == 'slice' and p.a[0] is r.p(r.body.argc) and p.a[1] is c_int(0) and p.a[2] is c_int(32):
        return True
    return p.op == 'mut' and p.a[0] == 'Stream::xor_key_stream' and p.a[1] == 1


def is_fresh_pick(t, suite):
    if t.op == 'call' and t.a[0] == 'Scalar::pick':
        st = t.a[2]
        while st.op == 'mut':
            st = st.a[2 + st.a[1]]
        return st.op == 'call' and st.a[0] == 'Random::random_stream' and st.a[1] is suite
    return False


EDDSA_NOT_OPAQUE = lambda clean, c: clean.startswith('group::') and 'new_key_and_seed' not in clean


def eddsa_ctors(ctx):
    out = []
    for nm, fn in (('EdDSA::new', 'sign::eddsa::eddsa_sig::EdDSA::new'),
                   ('From<Pair>', 'sign::eddsa::eddsa_sig::EdDSA as From::from'),
                   ('unmarshal', 'sign::eddsa::eddsa_sig::EdDSA as BinaryUnmarshaler::unmarshal_binary')):
        r = ctx.run(fn, opaque=frozenset(), opaque_pred=EDDSA_NOT_OPAQUE)
        for e in need_ok(ctx, r, nm):
            if nm == 'unmarshal':
                self = r.p(1)
                rec = {f: e.final(self, f) for f in ('seed', 'prefix', 'secret', 'public')}
            else:
                rec = {f: fld(e.pay, f) for f in ('seed', 'prefix', 'secret', 'public')}
            e.rec = rec
            out.append((nm, e, rec['prefix'], r))
    return out


def eval_byte(t, x, v):
    """value of byte expression t when sub-term x is v; None when it is something else"""
    if t is x:
        return v
    if t.op == 'const':
        return t.a[1] & 255
    if t.op == 'bin':
        a, b = eval_byte(t.a[1], x, v), eval_byte(t.a[2], x, v)
        if a is None or b is None:
            return None
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'Add': (a + b) & 255, 'Sub': (a - b) & 255,
                'Shl': (a << (b & 7)) & 255, 'Shr': a >> (b & 7), 'Mul': a * b & 255, 'Div': a // b if b else None, 'Rem': a % b if b else None}.get(t.a[0])
    if t.op == 'un' and t.a[0] == 'Not':
        a = eval_byte(t.a[1], x, v)
        return None if a is None else a ^ 255
    return None


def clamped(sec, h):
    """sec is the scalar whose 32 bytes are the clamped lower half of hash h"""
    v = None
    if sec.op == 'upd':
        v = dict(sec.a[1]).get('v')
    elif sec.op == 'adt':
        v = dict(sec.a[2]).get('v')
    if v is None or v.op != 'stores':
        return False
    if v.a[0] is not C('slice', h, c_int(0), c_int(32)):
        return False
    want = {0: lambda b: b & 248, 31: lambda b: (b & 127) | 64}
    d = dict(v.a[1])
    if set(d) != set(want):
        return False
    for i, f in want.items():
        x = C('index', h, c_int(i))
        for b in range(256):
            if eval_byte(d[i], x, b) != f(b):
                return False
    return True


def S04(ctx):
    fn = 'DSS::process_partial_sig'
    r = ctx.run('sign::dss::dss_sig::DSS::process_partial_sig', opaque=PROTO)
    S, ps = r.p(1), r.p(2)
    part = mk('field', ps, 'partial')
    i = mk('field', part, 'i')
    v = mk('field', part, 'v')
    pub = C('index', mk('field', S, 'participants'), i)
    from norm import p_atom
    for e in need_ok(ctx, r, fn):
        cf = e.cf
        ctx.ob('dss.index', fn, (C('lt', i, C('call', 'len', mk('field', S, 'participants'))), True) in cf or (C('has', mk('field', S, 'participants'), i), True) in cf,
               'a partial signature is accepted whose index is not bounded by the number of participants')
        ver = [f for f, b in cf if b and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == SCH_V]
        ctx.ob('dss.author', fn, any(f.a[0].a[2] is pub and ps_hash_ok(ctx, f.a[0].a[3], part, mk('field', ps, 'session_id')) and f.a[0].a[4] is mk('field', ps, 'signature') for f in ver),
               'a partial signature is accepted without verifying its signature, over share and session, under the key of the participant it claims')
        ctx.ob('dss.session', fn, has_eq(cf, mk('field', ps, 'session_id'), mk('field', S, 'session_id')),
               'a partial signature of another session is accepted')
        ctx.ob('dss.once', fn, (C('has', mk('field', S, 'partials_idx'), i), False) in cf,
               'a second partial signature of the same participant is accepted')
        ok = False
        for h in dss_hash(r, S):
            def ev(poly):
                return r.cv(mk('field', mk('call', 'share::poly::PubPoly::eval', mk('field', S, poly), i), 'v'))
            if (eqp((B, {(v,): 1}), (ev('random_poly'), {(): -1}), (ev('long_poly'), {(h,): -1})), True) in cf:
                ok = True
        ctx.ob('dss.equation', fn, ok, 'a partial signature is accepted without checking g^gamma_i == R_i + H(R||A||msg)*A_i')
        newp = e.final_raw(S, 'partials')
        good = newp.op == 'mut' and newp.a[0] == 'Vec::push' and newp.a[2] is mk('field', S, 'partials') and r.cv(newp.a[3]) is C('adt', 'Option', 'Some', (('0', part),))
        ctx.ob('dss.stored', fn, good, 'the accepted partial signature is not the one that is stored')
        ni = e.final_raw(S, 'partials_idx')
        good = ni.op == 'mut' and ni.a[0] == 'insert' and r.cv(ni.a[3]) is i
        ctx.ob('dss.recorded', fn, good, 'the participant of the accepted partial signature is not recorded as received')
    for e in r.errs():
        ctx.ob('dss.reject-clean', fn, e.final(S, 'partials') is mk('field', S, 'partials') and e.final(S, 'partials_idx') is mk('field', S, 'partials_idx'),
               'a rejected partial signature changes the set of partial signatures')
    # own share: at most once
    r = ctx.run('sign::dss::dss_sig::DSS::partial_sig', opaque=PROTO)
    S = r.p(1)
    fn = 'DSS::partial_sig'
    for e in need_ok(ctx, r, fn):
        n = 0
        for alt in alts(e.final_raw(S, 'partials')):
            pass
    for ev in r.events:
        if ev.kind == 'call' and ev.name == 'Vec::push' and ev.recv is mk('field', S, 'partials'):
            cf = r.cfacts(ev)
            ctx.ob('dss.own-once', fn, (mk('field', S, 'signed'), False) in cf or (C('has', mk('field', S, 'partials_idx'), mk('field', S, 'index')), False) in cf,
                   'the own partial signature can be stored more than once', where(ev))


def alts(t):
    return list(PHI_ALTS.get(t, ())) if t.op == 'phi' else [t]


def S05(ctx):
    fn = 'DSS::signature'
    r = ctx.run('sign::dss::dss_sig::DSS::signature', opaque=PROTO)
    S = r.p(1)
    t = mk('field', S, 't')
    parts = mk('field', S, 'partials')
    for e in need_ok(ctx, r, fn):
        cf = e.cf
        ctx.ob('dss.threshold', fn, (C('lt', C('call', 'len', parts), t), False) in cf or recovered_with(cf, S),
               'a signature is produced from fewer than t partial signatures')
        ctx.ob('dss.recover', fn, recovered_with(cf, S),
               'the signature scalar is not recovered from all stored partial signatures at the threshold of the session')
    fn = 'DSS::enough_partial_sig'
    r = ctx.run('sign::dss::dss_sig::DSS::enough_partial_sig', opaque=PROTO)
    S = r.p(1)
    lt = C('lt', C('call', 'len', mk('field', S, 'partials')), mk('field', S, 't'))
    tr, fl = r.trues(True), r.trues(False)
    ctx.ob('dss.enough', fn, bool(tr) and all((lt, False) in e.cf for e in tr), 'enough_partial_sig is true with fewer than t partial signatures')
    ctx.ob('dss.enough', fn, bool(fl) and all((lt, True) in e.cf for e in fl), 'enough_partial_sig is false although t partial signatures are there')
    # session fields are what the caller gave
    fn = 'new_dss'
    r = ctx.run('sign::dss::dss_sig::new_dss', opaque=PROTO)
    suite, secret, parts, lng, rnd, msg, t = [r.p(i) for i in range(1, 8)]
    for e in need_ok(ctx, r, fn):
        p = e.pay
        ctx.ob('dss.new', fn, fld(p, 't') is t and fld(p, 'msg') is msg and fld(p, 'participants') is parts and fld(p, 'secret') is secret,
               'the session does not use the given threshold, message, participants or secret')
        cl = C('call', 'DistKeyShare::commitments', lng)
        cr = C('call', 'DistKeyShare::commitments', rnd)
        ctx.ob('dss.new-polys', fn, fld(fld(p, 'long_poly'), 'commits') is cl and fld(fld(p, 'random_poly'), 'commits') is cr,
               'the verification polynomials are not those of the long-term and random keys')
        sid = fld(p, 'session_id')
        want = [C('rep', c, (enc(C('elem', c, 'L')),)) for c in (cl, cr)]
        ctx.ob('dss.sid', fn, sid.op == 'hash' and list(sid.a[0].a) == want, 'the session id does not cover the commitments of both keys')
        idx = fld(p, 'index')
        pub = r.N.fl({B: {(secret,): 1}})
        ok = any(b and f.op in ('eqp', 'eq') and is_at(f, parts, pub, r) for f, b in e.cf)
        from rules.vss import at_index
        alts = value_alts(fld(e.pay_raw, 'index'), e.facts)
        own = bool(alts) and all(at_index(canon_facts(r.N, g), parts, r.cv(l), pub) for l, g in alts)
        ctx.ob('dss.own-index', fn, own,
               'the own index is not the position of the own public key in the list of participants')
        ctx.ob('dss.new-keys', fn, fld(p, 'long') is lng and fld(p, 'random') is rnd and fld(p, 'public') is pub,
               'the session does not hold the given long-term and random keys, or the public key of the secret')
        ctx.ob('dss.member', fn, ok or own, 'a session is created although the public key of the secret is not in the list of participants')
    if not [e for e in r.oks()]:
        ctx.bad('dss.new', fn, 'no success exit')


def is_at(f, parts, pub, r):
    """f states that some participant equals pub"""
    subs = subterms_np(f)
    return any(s.op in ('elem', 'index') and s.a[0] is parts for s in subs) and (any(s is B for s in subs) or pub in subs)


def recovered_with(cf, S):
    for f, b in cf:
        if b and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == 'share::poly::recover_secret':
            _, g, sh, t, n = f.a[0].a
            if sh is mk('field', S, 'partials') and t is mk('field', S, 't') and n is C('call', 'len', mk('field', S, 'participants')):
                return True
    return False


def S06(ctx):
    for nm, e, pre, r in eddsa_ctors(ctx):
        rec = e.rec
        ctx.ob('eddsa.public', nm, r.N.pt(rec['public']) == {B: {(rec['secret'],): 1}} or nm == 'From<Pair>',
               'the public key is not the secret times the base point')
        if nm == 'From<Pair>':
            ctx.ob('eddsa.pair', nm, rec['secret'] is r.p(1, 'private') and rec['public'] is r.p(1, 'public'), 'the key pair is not taken over')
            continue
        seed = rec['seed']
        h = C('hash', bytes_of(seed))
        ctx.ob('eddsa.seed', nm, is_seed(seed, r), 'the seed is not the 32 bytes drawn from the stream / read from the encoding')
        ctx.ob('eddsa.clamp', nm, clamped(rec['secret'], h), 'the secret is not the clamped lower half of the hash of the seed')
        ctx.ob('eddsa.prefix', nm, rec['prefix'] is C('slice', h, c_int(32), C('end')), 'the prefix is not the upper half of the hash of the seed')
        if nm == 'EdDSA::new':
            ok = any(b and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0] == 'Stream::xor_key_stream' for f, b in e.cf)
            ctx.ob('eddsa.stream', nm, ok, 'a key is returned although reading the stream failed')
        else:
            ctx.ob('eddsa.length', nm, num_eq(e.cf, C('call', 'len', r.p(2)), c_int(64)), 'an encoded key of the wrong length is accepted')
    fn = 'EdDSA::marshal_binary'
    r = ctx.run('sign::eddsa::eddsa_sig::EdDSA as BinaryMarshaler::marshal_binary', opaque=())
    S = r.p(1)
    for e in need_ok(ctx, r, fn):
        ctx.ob('eddsa.marshal', fn, e.pay is bytes_of(mk('field', S, 'seed'), enc(mk('field', S, 'public'))), 'the encoding is not seed || public key')
        ctx.ob('eddsa.marshal-seed', fn, num_eq(e.cf, C('call', 'len', mk('field', S, 'seed')), c_int(32)), 'a key without a 32 byte seed is encoded')
    r = ctx.run('group::edwards25519::curve::Curve as Generator::new_key', opaque=frozenset(), opaque_pred=EDDSA_NOT_OPAQUE)
    for e in need_ok(ctx, r, 'Curve::new_key'):
        sec = e.pay
        sec = dict(sec.a[2])['0'] if sec.op == 'adt' and sec.a[1] == 'Some' else sec
        hs = [x for x in subterms_np(sec) if x.op == 'hash']
        ctx.ob('eddsa.clamp', 'Curve::new_key', any(is_seed(h.a[0], r) and clamped(sec, h) for h in hs), 'a new private key is not clamped from the hash of 32 stream bytes')
