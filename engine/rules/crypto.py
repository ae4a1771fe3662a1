"""Symmetric layer: authenticated encryption, ECIES, random streams, XOF, drawing of secrets."""
from lib import *
from lib import accum, counter
import norm
from norm import B, p_atom
from terms import PHI_ALTS, PHI_GATE

HKDF = 'dh::dh_impl::Dh::hkdf'


def c_int(n):
    return mk('const', 'int', n)


def leaves(t, seen=None):
    """every value a term can stand for through joins"""
    seen = set() if seen is None else seen
    if t.op != 'phi':
        return [t]
    if t in seen:
        return []
    seen.add(t)
    out = []
    for v in PHI_ALTS.get(t, ()):
        out += leaves(v, seen)
    return out


def callee(t, *names):
    return t.op == 'call' and any(t.a[0] == n or t.a[0].endswith('::' + n) for n in names)


def okpay(t):
    """the call whose Ok value t is"""
    if t.op == 'vf' and t.a[1] in ('Ok', 'Some'):
        return t.a[0]
    return None


def is_int(t, n):
    return t.op == 'const' and len(t.a) > 1 and t.a[1] == n


def whole(t, x):
    """t is all of x, possibly copied element by element"""
    if t is x:
        return True
    if t.op == 'bytes' and len(t.a) == 1:
        return whole(t.a[0], x)
    if t.op == 'rep' and t.a[0] is x and len(t.a[1]) == 1 and t.a[1][0].op == 'elem' and t.a[1][0].a[0] is x:
        return True
    if t.op == 'slice' and t.a[0] is x and is_int(t.a[1], 0) and (t.a[2].op == 'end' or t.a[2] is C('call', 'len', x)):
        return True
    return False


def need_ok(ctx, r, fn):
    oks = r.oks()
    if not oks:
        ctx.bad('exits', fn, 'no success exit')
    return oks


# ------------------------------------------------------------------ E02
def empty_bytes(t):
    return t.op == 'bytes' and not t.a or t.op == 'array' and not t.a or callee(t, 'Vec::new') or t.op == 'const' and t.a[-1] in ('', b'', "b''")


def payload_ok(r, t, data, aad, facts):
    """every way the cipher's payload can come about is (data, aad if given else nothing)"""
    for leaf, g in value_alts(t):
        cf = canon_facts(r.N, facts | g)
        given = (C('is', aad, 'Some'), True) in cf
        absent = (C('is', aad, 'Some'), False) in cf
        if leaf.op == 'call' and leaf.a[0] in ('From::from', 'Into::into') and len(leaf.a) == 2:
            leaf = leaf.a[1]
        if leaf.op == 'adt' and {n for n, _ in leaf.a[2]} == {'msg', 'aad'}:
            d = dict(leaf.a[2])
            m = d['msg']
            if m.op == 'ref' or m.op == 'addr' or m.op == 'ptr':
                m = r.an.deep(r.exits[0].st, m)
            if r.cv(m) is not data:
                return 'the message is not the whole input'
            for a, g2 in value_alts(d['aad']):
                c2 = canon_facts(r.N, facts | g | g2)
                a = r.cv(deref(r, a))
                if a is C('vf', aad, 'Some', '0') or a.op == 'vf' and a.a[0] is aad:
                    continue
                if callee(a, 'unwrap_or', 'Option::unwrap_or', 'unwrap_or_default') and a.a[1] is aad and (len(a.a) < 3 or empty_bytes(r.cv(deref(r, a.a[2])))):
                    continue
                if empty_bytes(a) and (C('is', aad, 'Some'), False) in c2:
                    continue
                return 'the additional data is not what the caller gave'
            continue
        if r.cv(leaf) is data:
            if not absent:
                return 'additional data given by the caller is not authenticated'
            continue
        return 'the message is not the whole input'
    return None


def deref(r, t):
    for e in r.exits:
        v = r.an.deep(e.st, t)
        if not any(x.op == 'uninit' for x in subterms_np(v)):
            return v
    return t


def deref_payload(r, t, st):
    return r.an.deep(st, t)


def aes(ctx, name, op):
    fn = 'dh::dh_impl::Dh::' + name
    r = ctx.run(fn, opaque=frozenset())
    key, nonce, data, aad = r.p(1), r.p(2), r.p(3), r.p(4)
    for e in need_ok(ctx, r, name):
        cf = e.cf
        ctx.ob('aead.key-length', name, has_eq(cf, C('call', 'len', key), c_int(32)), 'the cipher is used without a check that the key is exactly 32 bytes')
        c = okpay(e.pay_raw)
        good = c is not None and c.op == 'call' and c.a[0].split('::')[-1] == op and len(c.a) == 4
        ctx.ob('aead.result', name, good, 'the result is not the output of the authenticated cipher')
        if not good:
            continue
        k = r.cv(c.a[1])
        ctx.ob('aead.key', name, k.op == 'call' and k.a[0].split('::')[-1] in ('new', 'from') and len(k.a) == 2 and whole(k.a[1], key), 'the cipher is not keyed with the given key')
        ctx.ob('aead.nonce', name, whole(r.cv(c.a[2]), nonce), 'the cipher does not use the given nonce')
        pl = r.an.deep(e.st, c.a[3])
        why = payload_ok(r, pl, data, aad, e.facts)
        ctx.ob('aead.payload', name, why is None, why or '')
        ctx.ob('aead.failure', name, (C('is', r.cv(c), 'Ok'), True) in cf, 'a result is returned although the cipher reported a failure')


def hkdf_term(t):
    """(ikm, info, size term) of an HKDF output"""
    if callee(t, 'Dh::hkdf') or t.op == 'call' and t.a[0] == HKDF:
        return t.a[1:]
    return None


def E02(ctx):
    aes(ctx, 'aes_encrypt', 'encrypt')
    aes(ctx, 'aes_decrypt', 'decrypt')
    # key derivation
    r = ctx.run(HKDF, opaque=frozenset())
    ikm, info, size = r.p(1), r.p(2), r.p(3)
    for e in need_ok(ctx, r, 'hkdf'):
        p = e.pay_raw
        good = p.op == 'mut' and p.a[0].endswith('expand') and p.a[1] == 2
        ctx.ob('kdf.expand', 'hkdf', good, 'the result is not the output of HKDF-Expand')
        if not good:
            continue
        h = r.cv(p.a[2])
        ctx.ob('kdf.ikm', 'hkdf', h.op == 'call' and h.a[0].split('::')[-1] == 'new' and whole(h.a[-1], ikm), 'the key material is not the input of HKDF-Extract')
        ctx.ob('kdf.info', 'hkdf', whole(r.cv(p.a[3]), info), 'the context is not bound into the derived key')
        buf = p.a[4]
        ok = buf.op == 'call' and buf.a[0].endswith('from_elem')
        if ok:
            for leaf, g in value_alts(buf.a[2]):
                cf = canon_facts(r.N, g | e.facts)
                given = (C('is', size, 'Some'), True) in cf
                absent = (C('is', size, 'Some'), False) in cf
                l = r.cv(leaf)
                ok = ok and (l.op == 'vf' and l.a[0] is size or is_int(l, 32) and absent or
                             callee(l, 'unwrap_or') and l.a[1] is size and is_int(l.a[2], 32))
        ctx.ob('kdf.size', 'hkdf', ok, 'the derived key does not have the requested number of bytes (32 by default)')
        ex = [f for f, v in e.cf if v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('expand')]
        ctx.ob('kdf.failure', 'hkdf', bool(ex), 'a key is returned although the derivation failed')
    # the two directions of the point-keyed cipher agree
    for name, inner in (('encrypt', 'aes_encrypt'), ('decrypt', 'aes_decrypt')):
        r = ctx.run('dh::dh_impl::Dh::' + name, opaque=frozenset({HKDF}))
        pre, info, nonce, data = r.p(1), r.p(2), r.p(3), r.p(4)
        for e in need_ok(ctx, r, name):
            c = okpay(e.pay)
            good = c is not None and callee(c, inner)
            ctx.ob('dh.cipher', name, good, 'the result is not that of the authenticated cipher')
            if not good:
                continue
            k = okpay(c.a[1])
            h = hkdf_term(k) if k is not None else None
            ctx.ob('dh.key', name, h is not None and whole(h[0], enc(pre)) and whole(h[1], info) and (h[2].op == 'adt' and (h[2].a[1] == 'None' or h[2].a[1] == 'Some' and is_int(h[2].a[2][0][1], 32))),
                   'the key is not derived from the encoding of the shared point under the given context')
            ctx.ob('dh.input', name, whole(c.a[2], nonce) and whole(c.a[3], data), 'nonce and data are not passed to the cipher unchanged')
            ctx.ob('dh.context', name, c.a[4].op == 'adt' and c.a[4].a[1] == 'Some' and whole(c.a[4].a[2][0][1], info), 'the context is not authenticated with the message')
    # AEAD object
    r = ctx.run('dh::dh_impl::AEAD::new', opaque=frozenset({HKDF}))
    for e in need_ok(ctx, r, 'AEAD::new'):
        k = fld(e.pay, 'key')
        h = hkdf_term(okpay(k)) if okpay(k) is not None else None
        ctx.ob('aead.new', 'AEAD::new', h is not None and whole(h[0], enc(r.p(1))) and whole(h[1], r.p(2)), 'the key is not derived from the point and the context')
        ctx.ob('aead.new-length', 'AEAD::new', has_eq(e.cf, C('call', 'len', k), c_int(32)) or h is not None and (h[2].a[1] == 'None' or h[2].a[1] == 'Some' and is_int(h[2].a[2][0][1], 32)),
               'a key of another length than 32 bytes is accepted')
    for name, inner in (('seal', 'aes_encrypt'), ('open', 'aes_decrypt')):
        r = ctx.run('dh::dh_impl::AEAD::' + name, opaque=frozenset({HKDF}))
        S = r.p(1)
        for e in need_ok(ctx, r, 'AEAD::' + name):
            c = okpay(e.pay)
            ctx.ob('aead.use', 'AEAD::' + name, c is not None and callee(c, inner) and c.a[1] is mk('field', S, 'key') and whole(c.a[2], r.p(3)) and whole(c.a[3], r.p(4)) and c.a[4] is r.p(5),
                   'the result is not the cipher applied to nonce, text and additional data under the key of this object')
    # the shared point is the same for both ends
    r = ctx.run('dh::dh_impl::Dh::dh_exchange', opaque=frozenset())
    for e in r.exits:
        ctx.ob('dh.exchange', 'dh_exchange', r.N.pt(e.cv()) == {r.p(3): {(r.p(2),): 1}}, 'the exchange does not multiply the remote public point with the own private scalar')


# ------------------------------------------------------------------ E01
def subst(t, m, memo=None):
    """replace sub-terms (canonical terms)"""
    memo = {} if memo is None else memo
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return subst(x, m, memo) if hasattr(x, 'op') else x
    new = tuple(go(x) for x in t.a)
    out = t if all(a is b for a, b in zip(new, t.a)) else C(t.op, *new)
    if out.op == 'slice' and out.a[2].op == 'end':   # the end of derived key material is its requested size
        h = okpay(out.a[0])
        if h is not None and callee(h, 'Dh::hkdf') and h.a[-1].op == 'adt' and h.a[-1].a[1] == 'Some':
            out = C('slice', out.a[0], out.a[1], h.a[-1].a[2][0][1])
    memo[t] = out
    return out


def cipher_parts(t, inner):
    c = okpay(t)
    if c is None or not callee(c, inner):
        return None
    return c.a[1:]


def fresh_scalar(t):
    """a scalar picked from a stream over nothing but operating system entropy"""
    if not callee(t, 'Scalar::pick'):
        return False
    return entropy_stream(t.a[2])


def entropy_stream(s):
    while s.op == 'mut':
        s = s.a[2 + s.a[1]]
    if s.op == 'adt' and s.a[0].endswith('RandStream'):
        rd = dict(s.a[2]).get('readers')
        return rd is not None and rd.op == 'array' and len(rd.a) >= 1 and any(callee(x, 'from_entropy', 'thread_rng') or x.op == 'adt' and x.a[0].endswith('OsRng') for x in rd.a)
    return callee(s, 'RandStream::default', 'Random::random_stream')


def depends(t, x):
    return x in subterms_np(t)


def E01(ctx):
    re_ = ctx.run('encrypt::ecies::ecies_impl::encrypt', opaque=frozenset({HKDF}))
    rd = ctx.run('encrypt::ecies::ecies_impl::decrypt', opaque=frozenset({HKDF}))
    D, R = mk('shared'), mk('ephemeral')
    keys = {}
    N = re_.N
    pub, msg = re_.p(2), re_.p(3)
    for e in need_ok(ctx, re_, 'encrypt'):
        p = e.pay
        parts = p.a if p.op == 'bytes' else ()
        good = len(parts) == 2 and parts[0].op == 'enc'
        ctx.ob('ecies.format', 'encrypt', good, 'the ciphertext is not the encoded ephemeral point followed by the sealed message')
        if not good:
            continue
        Rt = parts[0].a[0]
        l = N.pt(Rt)
        ks = list(l.get(B, {}).items()) if list(l) == [B] else []
        ok = len(ks) == 1 and ks[0][1] == 1 and len(ks[0][0]) == 1
        k = ks[0][0][0] if ok else None
        ctx.ob('ecies.ephemeral', 'encrypt', ok and fresh_scalar(k), 'the ephemeral point is not a fresh scalar, drawn from the operating system\'s randomness alone, times the base point')
        if not ok:
            continue
        ct = parts[1]
        if ct.op == 'rep' and len(ct.a[1]) == 1 and ct.a[1][0].op == 'elem' and ct.a[1][0].a[0] is ct.a[0]:
            ct = ct.a[0]
        c = cipher_parts(ct, 'aes_encrypt')
        ctx.ob('ecies.seal', 'encrypt', c is not None, 'the message is not sealed by the authenticated cipher')
        if c is None:
            continue
        ctx.ob('ecies.message', 'encrypt', whole(c[2], msg), 'the sealed text is not the whole message')
        dh = enc(N.fl({pub: {(k,): 1}}))
        ctx.ob('ecies.shared', 'encrypt', depends(c[0], dh), 'the key does not depend on the shared point (ephemeral scalar times the public key)')
        m = {dh: enc(D), enc(Rt): enc(R)}
        keys['e'] = (subst(c[0], m), subst(c[1], m), c[3])
    pr, ctx_ = rd.p(2), rd.p(3)
    N = rd.N
    for e in need_ok(ctx, rd, 'decrypt'):
        c = cipher_parts(e.pay, 'aes_decrypt')
        ctx.ob('ecies.open', 'decrypt', c is not None, 'the result is not what the authenticated cipher opened')
        if c is None:
            continue
        plen = [x for x in (C('call', 'Group::point_len', rd.p(1)), C('size', 'point'), c_int(32))]
        ok = False
        for l in plen:
            rb = C('slice', ctx_, c_int(0), l)
            Rt = C('dec', 'point', bytes_of(rb))
            dh = enc(N.fl({Rt: {(pr,): 1}}))
            if c[2] is C('slice', ctx_, l, C('end')):
                ok = True
                ctx.ob('ecies.shared', 'decrypt', depends(c[0], dh), 'the key does not depend on the shared point (private key times the ephemeral point)')
                dec_ok = any(v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('unmarshal_binary') for f, v in e.cf) or \
                    any(v and f.op in ('decodes', 'valid') for f, v in e.cf)
                ctx.ob('ecies.point', 'decrypt', dec_ok, 'the ephemeral point is used although it did not decode')
                m = {dh: enc(D), enc(Rt): enc(R), rb: enc(R), bytes_of(rb): enc(R)}
                keys['d'] = (subst(c[0], m), subst(c[1], m), c[3])
        ctx.ob('ecies.split', 'decrypt', ok, 'the text that is opened is not everything behind the encoded ephemeral point')
    if 'e' in keys and 'd' in keys:
        ke, kd = keys['e'], keys['d']
        ctx.ob('ecies.same-key', 'encrypt/decrypt', ke[0] is kd[0], 'encryption and decryption derive different keys from the shared and the ephemeral point')
        ctx.ob('ecies.same-nonce', 'encrypt/decrypt', ke[1] is kd[1], 'encryption and decryption derive different nonces')
        ctx.ob('ecies.same-aad', 'encrypt/decrypt', ke[2] is kd[2], 'encryption and decryption authenticate different additional data')


# ------------------------------------------------------------------ R01
RS = 'util::random::random_stream::RandStream'
XOF = 'xof::blake3::xof::Xof'
XKS = XOF + ' as Stream::xor_key_stream'


def const_len(t):
    """length of a buffer through in-place operations"""
    seen = set()
    out = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'phi':
            for v in PHI_ALTS.get(x, ()):
                go(v)
        elif x.op == 'mut' and x.a[0].split('::')[-1] in ('read', 'read_exact', 'xor_key_stream', 'fill_bytes', 'store'):
            go(x.a[2 + x.a[1]])
        elif x.op == 'call' and x.a[0].endswith('from_elem'):
            out.add(x.a[2])
        elif x.op == 'repeat' or x.op == 'call' and x.a[0] == 'repeat':
            n = x.a[-1]
            if getattr(n, 'op', None) == 'const' and (isinstance(n.a[1], int) or str(n.a[1]).isdigit()):
                n = int(n.a[1])
            out.add(c_int(int(n)) if isinstance(n, int) or isinstance(n, str) and n.isdigit() else n)
        elif x.op == 'mut' and x.a[0].endswith('Vec::resize') and x.a[1] == 0:
            out.add(x.a[3])
        elif x.op == 'slice' and len(x.a) == 3 and is_int(x.a[1], 0):
            out.add(x.a[2])
        elif x.op == 'call' and x.a[0] == 'slice' and x.a[2].op == 'adt':
            d = dict(x.a[2].a[2])
            if 'end' in d and (d.get('start') is None or is_int(d['start'], 0)):
                out.add(d['end'])
            else:
                out.add(None)
        else:
            out.add(None)
    go(t)
    return out


def read_of(t):
    """the read_exact result a chunk consists of, whole"""
    if t.op == 'slice':
        lo, hi = t.a[1], t.a[2]
        if not is_int(lo, 0) or hi.op != 'end' and hi is not C('call', 'len', t.a[0]):
            return None
        return read_of(t.a[0])
    if t.op == 'bytes' and len(t.a) == 1:
        return read_of(t.a[0])
    if t.op == 'mut' and t.a[0].split('::')[-1] == 'read_exact' and t.a[1] == 1:
        return t
    return None


def R01(ctx):
    fn = 'RandStream::xor_key_stream'
    r = ctx.run(RS + ' as Stream::xor_key_stream', opaque=frozenset({XKS, XOF + '::new'}))
    S, dst, src = r.p(1), r.p(2), r.p(3)
    readers = mk('field', S, 'readers')
    oks = [e for e in r.oks()]
    if not oks:
        ctx.bad('exits', fn, 'no success exit')
    for e in oks:
        cf = e.cf
        ctx.ob('stream.lengths', fn, has_eq(cf, C('call', 'len', dst), C('call', 'len', src)), 'output is produced although source and destination have different lengths')
        ret = e.ret
        if ret.op != 'call':    # `?; Ok(())`
            cands = [f.a[0] for f, v in e.facts if v and f.op in ('is', 'istest') and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('xor_key_stream')]
            ret = cands[0] if cands else ret
        good = ret.op == 'call' and ret.a[0].endswith('xor_key_stream') and len(ret.a) == 4 and ret.a[2] is dst and ret.a[3] is src
        x = ret.a[1] if good else None
        good = good and x.op == 'call' and x.a[0].endswith('Xof::new') and x.a[1].op == 'adt' and x.a[1].a[1] == 'Some'
        ctx.ob('stream.xof', fn, good, 'the output is not the key stream of an XOF seeded with the gathered randomness')
        if not good:
            continue
        seed = x.a[1].a[2][0][1]
        data = None
        y = seed
        # hash(all of the gathered bytes)
        if y.op == 'call' and y.a[0].endswith('finalize') and y.a[1].op == 'mut' and y.a[1].a[0].endswith('update') and callee(y.a[1].a[2], 'new', 'default'):
            data = y.a[1].a[3]
        elif y.op == 'call' and y.a[0].endswith('digest'):
            data = y.a[1]
        ctx.ob('stream.hash', fn, data is not None, 'the seed is not the hash of the gathered randomness')
        if data is None:
            continue
        def chunk(v):
            rd = read_of(v)
            return rd is not None
        A = chunks(r, data)
        ctx.ob('stream.gather', fn, A is not None, 'the gathered randomness is not a list of chunks read from the sources')
        if A is None:
            continue
        steps, keeps, loops = A
        okc = bool(steps)
        for v, g in steps:
            rd = read_of(v)
            if rd is None:
                okc = False
                continue
            srcs = {strip(z) for z in leaves_deep(rd.a[2])}
            okc = okc and all(z.op == 'elem' and z.a[0] is readers for z in srcs) and const_len(rd.a[3]) == {c_int(32)}
            okc = okc and any(v2 and f.op in ('is', 'istest') and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('read_exact') for f, v2 in g)
        ctx.ob('stream.chunks', fn, okc, 'what is hashed is not 32 bytes of each source that delivered them')
        ctx.ob('stream.skips', fn, all(any(not v2 and f.op in ('is', 'istest') and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('read_exact') or
                                           v2 and f.op in ('is', 'istest') and f.a[1] == 'Err' and f.a[0].op == 'call' and f.a[0].a[0].endswith('read_exact') for f, v2 in g) for g in keeps),
               'a source is left out although it delivered its bytes')
        ctx.ob('stream.all', fn, any((mk('done', l), True) in cf for l in loops) and covers(steps, readers), 'not every source is read')
        ctx.ob('stream.some', fn, some_reader(r, e, readers, data), 'output is produced although every source failed')
    r = ctx.run(RS + ' as Default::default', opaque=frozenset())
    for e in r.exits:
        ctx.ob('stream.default', 'RandStream::default', entropy_stream(e.ret), 'the default stream is not seeded with operating system entropy')
    r = ctx.run(RS + '::new', opaque=frozenset())
    rd = r.p(1)
    for e in r.exits:
        v = fld(e.ret, 'readers')
        ok = True
        for leaf, g in value_alts(v):
            cf = canon_facts(r.N, g | e.facts)
            nonempty = (C('call', 'is_empty', rd), False) in cf or (C('is_empty', rd), False) in cf or (C('eq', c_int(0), C('call', 'len', rd)), False) in cf
            l = r.cv(leaf)
            ok = ok and (l is rd or entropy_stream(mk('adt', 'RandStream', 'RandStream', (('readers', leaf),))) )
            if l is not rd:
                ok = ok and not nonempty
        ctx.ob('stream.new', 'RandStream::new', ok, 'a given source is dropped, or a stream without any source is built')
    r = ctx.run('group::edwards25519::suite::SuiteEd25519 as Random::random_stream', opaque=frozenset())
    for e in r.exits:
        ctx.ob('stream.suite', 'SuiteEd25519::random_stream', entropy_stream(e.ret), 'the random stream of the suite is not the default random stream')


def strip(z):
    return z


def leaves_deep(t):
    """leaves through joins and in-place operations"""
    out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'phi':
            for v in PHI_ALTS.get(x, ()):
                go(v)
        elif x.op == 'mut':
            go(x.a[2 + x.a[1]])
        else:
            out.append(own_elem(unprev(x)))
    go(t)
    return out


def own_elem(x):
    """element i of a container whose elements are stored back in place, i running over all of it: not yet stored at that point"""
    if x.op == 'index' and x.a[0].op == 'phi' and x.a[1].op == 'elem' and x.a[1].a[0].op == 'adt':
        base = norm.same_length(x.a[0])
        if base.op == 'phi':
            return x
        d = dict(x.a[1].a[0].a[2])
        stores = [y for y in PHI_ALTS.get(x.a[0], ()) if y.op == 'mut']
        if is_int(d.get('start'), 0) and d.get('end') is mk('call', 'len', base) and all(y.a[3].op == 'elem' and y.a[3].a[0].op == 'adt' and unprev(y.a[3].a[0]).a[2] == x.a[1].a[0].a[2] for y in stores):
            return mk('elem', base, x.a[1].a[1])
    return x


APPEND = ('write_all', 'push', 'extend_from_slice', 'extend', 'append', 'write', 'update')


def chunks(r, t):
    """a byte list built by appending inside a loop: ([(chunk, raw gate facts)], [gates of iterations adding nothing], loops)"""
    steps, keeps, loops = [], [], set()
    seen = set()
    ok = True
    stack = [(t, frozenset())]
    phis = set()
    while stack:
        x, g = stack.pop()
        if x.op == 'phi':
            if x in seen:
                continue
            seen.add(x)
            phis.add(x)
            gs = PHI_GATE.get(x, {})
            for v in PHI_ALTS.get(x, ()):
                stack.append((v, gs.get(v, frozenset())))
        elif x.op == 'mut' and x.a[0].split('::')[-1] in APPEND and x.a[1] == 0 and len(x.a) == 4:
            if any(isinstance(l, tuple) and l and l[0] == 'prev' for l in absint.loops_in(x.a[3])) and False:
                continue
            steps.append((r.cv(x.a[3]), g))
            stack.append((x.a[2], frozenset()))
        elif x.op == 'array' and not x.a or callee(x, 'Vec::new', 'Vec::with_capacity'):
            pass
        else:
            ok = False
    for p in phis:
        keeps += unchanged_rounds(p)
    for v, g in steps:
        for f, b in g:
            loops |= plain_loops(f)
        loops |= plain_loops(v)
        for z in leaves_deep(v):
            loops |= plain_loops(z)
        rd = read_of(v)
        if rd is not None:
            for z in leaves_deep(rd.a[2]):
                loops |= plain_loops(z)
    return (steps, keeps, loops) if ok and steps else None


def unchanged_rounds(p):
    """the facts of every way round a loop on which the joined value stays what it was"""
    out, w = [], [(p, frozenset(), frozenset())]
    while w and len(out) < 64:
        x, g, seen = w.pop()
        gs = PHI_GATE.get(x, {})
        for v in PHI_ALTS.get(x, ()):
            g2 = g | gs.get(v, frozenset())
            if v is p:
                out.append(g2)
            elif v.op == 'phi' and v not in seen:
                w.append((v, g2, seen | {v}))
    return out


def covers(steps, coll):
    for v, g in steps:
        rd = read_of(v)
        if rd is None or not any(z.op == 'elem' and z.a[0] is coll for z in leaves_deep(rd.a[2])):
            return False
    return True


def some_reader(r, e, readers, data):
    n = mk('call', 'len', readers)
    for f, v in e.facts:
        if f.op == 'eq' and not v and any(r.cv(x) is r.cv(n) for x in f.a):
            o = f.a[0] if r.cv(f.a[1]) is r.cv(n) else f.a[1]
            c = counter(r, o)
            if c and c.complete(e.facts) and all(any(f2.op == 'is' and f2.a[1] == 'Ok' and not v2 for f2, v2 in g) for g in c.incs):
                return True
        if f.op == 'lt' and v and r.cv(f.a[1]) is r.cv(n):
            c = counter(r, f.a[0])
            if c and c.complete(e.facts) and all(any(f2.op == 'is' and f2.a[1] == 'Ok' and not v2 for f2, v2 in g) for g in c.incs):
                return True
        o = None
        if f.op == 'eq' and not v and any(is_int(x, 0) for x in f.a):
            o = f.a[0] if is_int(f.a[1], 0) else f.a[1]
        elif f.op == 'lt' and v and is_int(f.a[0], 0):
            o = f.a[1]
        elif f.op in ('is_empty',) and not v:
            o = mk('call', 'len', f.a[0])
        elif f.op == 'call' and f.a[0] == 'is_empty' and not v:
            o = mk('call', 'len', f.a[1])
        if o is not None:
            if o.op == 'call' and o.a[0] == 'len' and o.a[1] is data:
                return True
            c = counter(r, o)
            if c and all(any(f2.op == 'is' and f2.a[1] == 'Ok' and v2 for f2, v2 in g) for g in c.incs):
                return True
    return False


# ------------------------------------------------------------------ R02
def R02(ctx):
    fn = 'Xof::xor_key_stream'
    r = ctx.run(XKS, opaque=frozenset({XOF + ' as Read::read'}))
    S, dst, src = r.p(1), r.p(2), r.p(3)
    n = C('call', 'len', src)
    oks = r.oks()
    if not oks:
        ctx.bad('exits', fn, 'no success exit')
    for e in oks:
        cf = e.cf
        nd = C('call', 'len', dst)
        ctx.ob('xof.short', fn, (C('lt', nd, n), False) in cf or has_eq(cf, nd, n), 'output is produced into a destination that is shorter than the source')
        fin = e.st.mem.get(('O', dst), dst)
        cells = xor_cells(r, fin, dst, src)
        ctx.ob('xof.xor', fn, cells is not None, 'the destination does not become, byte by byte and over the whole source, the source XOR the key stream')
        if cells is None:
            continue
        keys, loops = cells
        ctx.ob('xof.whole', fn, bool(loops) and all((mk('done', l), True) in e.facts for l in loops), 'not every byte of the source is processed')
        okk = bool(keys)
        for K in keys:
            good = K.op == 'mut' and K.a[0].split('::')[-1] in ('read', 'read_exact') and K.a[1] == 1
            if good:
                who = K.a[2]
                while who.op == 'upd':
                    if {f for f, _ in who.a[1]} - {'key'}:
                        good = False
                    who = who.a[0]
                good = good and who is S
                good = good and {r.cv(x) if x is not None else None for x in const_len(K.a[3])} == {n}
                if K.a[0].split('::')[-1] == 'read':
                    good = good and any(f.op == 'eq' and v and n in f.a and any(y.op == 'vf' and y.a[0].op == 'call' and y.a[0].a[0].endswith('read') for y in f.a) for f, v in cf)
                f = e.st.mem.get(('O', S), S)
                while f.op == 'upd':
                    if 'implementation' in dict(f.a[1]):
                        good = False
                    f = f.a[0]
                good = good and f.op == 'mut' and f.a[1] == 0 and f.a[2] is K.a[2]
            okk = okk and good
        ctx.ob('xof.fresh', fn, okk, 'the key stream is not freshly read output of the XOF of exactly the length of the source')
    # reading
    fn = 'Xof::read'
    r = ctx.run(XOF + ' as Read::read', opaque=frozenset())
    S, buf = r.p(1), r.p(2)
    imp = mk('field', S, 'implementation')
    ok, n_alt = True, 0
    for e in r.exits:
        fin = e.st.mem.get(('O', S), S)
        out = e.st.mem.get(('O', buf), buf)
        for leaf, g in value_alts(out):
            n_alt += 1
            cf = canon_facts(r.N, g | e.facts)
            good = leaf.op == 'mut' and leaf.a[0].endswith('read') and leaf.a[1] == 1 and leaf.a[3] is buf
            if not good:
                ok = False
                continue
            rd = leaf.a[2]
            readable = (C('is', imp, 'Readable'), True) in cf or (C('is', imp, 'Writeable'), False) in cf
            if rd.op == 'upd':    # the state was switched before reading
                rd = dict(rd.a[1]).get('implementation')
                rd = rd is not None and rd.op == 'adt' and rd.a[1] == 'Readable' and rd.a[2][0][1]
            if rd is False or rd is None:
                ok = False
            elif rd.op == 'vf' and rd.a[0] is imp and rd.a[1] == 'Readable':
                pass
            elif callee(rd, 'finalize_xof') and rd.a[1].op == 'vf' and rd.a[1].a[0] is imp and rd.a[1].a[1] == 'Writeable':
                ok = ok and not readable
            else:
                ok = False
        for leaf, g in value_alts(fin):
            ok = ok and leaf is not S and any(x.op == 'mut' and x.a[0].endswith('read') and x.a[1] == 0 for x in subterms_np(leaf))
    ctx.ob('xof.read', fn, ok and n_alt >= 2, 'reading does not continue the output stream of everything that was absorbed')
    # writing
    fn = 'Xof::write'
    r = ctx.run(XOF + ' as Write::write', opaque=frozenset())
    S, buf = r.p(1), r.p(2)
    imp = mk('field', S, 'implementation')
    ok = True
    for e in r.oks():
        cf = e.cf
        ok = ok and ((C('is', imp, 'Writeable'), True) in cf or (C('is', imp, 'Readable'), False) in cf)
        w = [x for x in subterms_np(e.st.mem.get(('O', S), S)) if x.op == 'mut' and x.a[0].split('::')[-1] in ('write', 'write_all', 'update')]
        ok = ok and any(x.a[3] is buf and x.a[2].op == 'vf' and x.a[2].a[0] is imp for x in w)
    ctx.ob('xof.write', fn, ok and bool(r.oks()), 'data can be written after the XOF was read from, or what is written is not absorbed')
    # construction, copy, reseeding
    r = ctx.run(XOF + '::new', opaque=frozenset())
    seed = r.p(1)
    ok = bool(r.exits)
    for e in r.exits:
        i = fld(e.ret, 'implementation')
        for leaf, g in value_alts(dict(i.a[2]).get('writer', i) if i.op == 'adt' else i):
            cf = canon_facts(r.N, g | e.facts)
            if callee(leaf, 'Hasher::new', 'Hasher::default', 'Default::default'):
                ok = ok and ((C('is', seed, 'Some'), True) not in cf)
            elif leaf.op == 'mut' and leaf.a[0].split('::')[-1] in ('write_all', 'update') and callee(leaf.a[2], 'Hasher::new', 'Hasher::default', 'Default::default'):
                ok = ok and leaf.a[3].op == 'vf' and leaf.a[3].a[0] is seed
            else:
                ok = False
        ok = ok and i.op == 'adt' and i.a[1] == 'Writeable'
    ctx.ob('xof.seed', 'Xof::new', ok, 'a new XOF does not absorb exactly the given seed')
    r = ctx.run(XOF + ' as XOF::clone', opaque=frozenset())
    for e in r.exits:
        S = r.p(1)
        ctx.ob('xof.clone', 'Xof::clone', fld(e.ret, 'implementation') is mk('field', S, 'implementation'), 'a copy does not have the state of the original')
    fn = 'Xof::reseed'
    r = ctx.run(XOF + ' as XOF::reseed', opaque=frozenset({XOF + ' as Read::read'}))
    S = r.p(1)
    for e in r.exits:
        i = fld(e.st.mem.get(('O', S), S), 'implementation')
        ok = i.op == 'adt' and i.a[1] == 'Writeable'
        w = dict(i.a[2]).get('writer') if ok else None
        ok = ok and w.op == 'mut' and w.a[0].split('::')[-1] in ('write_all', 'update') and callee(w.a[2], 'Hasher::new', 'Hasher::default', 'Default::default')
        K = w.a[3] if ok else None
        ok = ok and K.op == 'mut' and K.a[0].endswith('read_exact') and K.a[1] == 1
        if ok:
            who = K.a[2]
            while who.op == 'upd' and not {f for f, _ in who.a[1]} - {'key'}:
                who = who.a[0]
            ls = const_len(K.a[3])
            ok = who is S and all(x is not None and x.op == 'const' and x.a[1] >= 32 for x in ls)
        ctx.ob('xof.reseed', fn, ok, 'reseeding does not start a fresh XOF from (at least 32 bytes of) output of the old one')
    r = ctx.run('group::edwards25519::suite::SuiteEd25519 as XOFFactory::xof', opaque=frozenset({XOF + '::new'}))
    for e in r.exits:
        ctx.ob('xof.suite', 'SuiteEd25519::xof', e.ret.op == 'call' and e.ret.a[0].endswith('Xof::new') and e.ret.a[1] is r.p(2), 'the XOF of the suite is not seeded with the given key')


def xor_cells(r, fin, dst, src):
    """dst[i] = src[i] ^ K[i] for the indices of a loop over the whole of src: (set of K, loops)"""
    keys, loops, seen = set(), set(), set()
    n = C('call', 'len', src)
    ok = True
    stack = [fin]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            stack += list(PHI_ALTS.get(x, ()))
            continue
        if x is dst:
            continue
        if x.op == 'mut' and x.a[0] == 'store' and len(x.a) == 5:
            i, v = unprev(x.a[3]), unprev(x.a[4])
            stack.append(x.a[2])
            if not (v.op == 'bin' and v.a[0] == 'BitXor'):
                return None
            ls = plain_loops(i)
            if len(ls) != 1:
                return None
            loops |= ls
            rng = i.a[0] if i.op == 'elem' else None
            if rng is None or not (is_range(r, rng, n) or is_range(r, rng, C('call', 'len', dst)) or any(is_range(r, rng, z) for z in zlens(rng, src))):
                return None
            hit = None
            for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                if (a.op == 'elem' and a.a[0] is src and plain_loops(a) == ls or a.op == 'index' and a.a[0] is src and a.a[1] is i) and \
                        (b.op == 'index' and b.a[1] is i or b.op == 'elem'):
                    hit = b.a[0]
            if hit is None:
                return None
            keys.add(hit)
            continue
        return None
    return (keys, loops) if keys else None


def zlens(rng, src):
    """the end of an index range when it is the length of several sequences walked side by side, the input among them"""
    if rng.op != 'adt':
        return
    en = dict(rng.a[2]).get('end')
    if en is not None and en.op == 'call' and en.a[0] == 'len' and en.a[1].op == 'izip' and any(s is src or s.op in ('call', 'iter') and src in s.a for s in en.a[1].a):
        yield C('call', 'len', en.a[1])


def is_range(r, rng, n):
    if rng.op == 'adt':
        d = dict(rng.a[2])
        return is_int(d.get('start'), 0) and r.cv(d.get('end')) is n
    return False


# ------------------------------------------------------------------ R03
def ev(t, env):
    """evaluate an integer or boolean expression under an assignment of its atoms; None when it is something else"""
    if t in env:
        return env[t]
    if t.op == 'const':
        return t.a[1] if isinstance(t.a[1], (int, bool)) else None
    if t.op == 'bin':
        a, b = ev(t.a[1], env), ev(t.a[2], env)
        if a is None or b is None:
            return None
        o = t.a[0]
        try:
            return {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b,
                    'Shl': lambda: a << b, 'Shr': lambda: a >> b, 'Div': lambda: a // b, 'Rem': lambda: a % b,
                    'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[o]()
        except (KeyError, ValueError, ZeroDivisionError):
            return None
    if t.op in ('eq', 'lt'):
        a, b = ev(t.a[0], env), ev(t.a[1], env)
        return None if a is None or b is None else (a == b if t.op == 'eq' else a < b)
    if t.op == 'not' or t.op == 'un' and t.a[0] == 'Not':
        a = ev(t.a[-1], env)
        return None if a is None else (not a if isinstance(a, bool) else ~a)
    if t.op == 'narrow':
        a = ev(t.a[-1], env)
        return None if a is None else a & 255
    return None


def top_byte(r, t, base, bl, ex, L, x, exact, idx0=0):
    """value of byte 0 of a buffer built from `base` by stores, for bit length L, drawn byte x; None: not decidable"""
    env = {bl: L, ex: exact}

    def byte(u, depth=0):
        if depth > 12:
            return None
        if u is base:
            return x
        if u.op == 'phi':
            vals = set()
            for v in PHI_ALTS.get(u, ()):
                feasible = True
                for f, b in PHI_GATE.get(u, {}).get(v, frozenset()):
                    z = ev(f, env)
                    if z is not None and bool(z) != b:
                        feasible = False
                if feasible:
                    vals.add(byte(v, depth + 1))
            return vals.pop() if len(vals) == 1 else None
        if u.op == 'mut' and u.a[0] == 'store' and is_int(u.a[3], 0):
            e2 = dict(env)
            for s in subterms_np(u.a[4]):
                if s.op == 'index' and is_int(s.a[1], 0):
                    b = byte(s.a[0], depth + 1)
                    if b is not None:
                        e2[s] = b
            z = ev(u.a[4], e2)
            return None if z is None else z & 255
        return None
    return byte(t)


BITS = 'util::random::random_stream::bits'
RI = 'util::random::random_stream::random_int'
BYTES = 'util::random::random_stream::bytes'


def zeros(t, n):
    return t.op == 'call' and t.a[0].endswith('from_elem') and is_int(t.a[1], 0) and (n is None or t.a[2] is n)


def R03(ctx):
    fn = 'bits'
    r = ctx.run(BITS, opaque=frozenset())
    bl, ex, rand = r.p(1), r.p(2), r.p(3)
    for e in r.exits or [None]:
        if e is None:
            ctx.bad('exits', fn, 'no exit')
            break
        base = [x for x in absint_sub(e.ret) if x.op == 'mut' and x.a[0].endswith('xor_key_stream') and x.a[1] == 1]
        ok = len(set(base)) == 1
        b = base[0] if ok else None
        ok = ok and b.a[2] is rand and zeros(b.a[3], None) and (zeros(b.a[4], None)) and b.a[3].a[2] is b.a[4].a[2]
        ctx.ob('bits.drawn', fn, ok, 'the bytes are not key stream of the given source over zeros')
        if not ok:
            continue
        n = b.a[3].a[2]
        ctx.ob('bits.length', fn, all(ev(n, {bl: L}) == (L + 7) // 8 for L in range(1, 600)), 'the number of bytes is not the bit length divided by eight, rounded up')
        good = all(top_byte(r, e.ret, b, bl, ex, L, x, xx) == want_top(L, x, xx) for L in range(8, 17) for x in range(256) for xx in (False, True))
        ctx.ob('bits.mask', fn, good, 'the top byte is not masked to exactly the bit length (and its top bit set if and only if an exact length is asked for)')
        ctx.ob('bits.failure', fn, any(v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('xor_key_stream') for f, v in e.cf), 'bits are returned although the stream failed')
    fn = 'bytes'
    r = ctx.run(BYTES, opaque=frozenset())
    for e in need_ok(ctx, r, fn):
        f = e.st.mem.get(('O', r.p(1)), r.p(1))
        ctx.ob('bytes.fill', fn, f.op == 'mut' and f.a[0].endswith('xor_key_stream') and f.a[1] == 1 and f.a[2] is r.p(2) and f.a[3] is r.p(1) and zeros(f.a[4], mk('call', 'len', r.p(1))),
               'the buffer is not filled with key stream over zeros')
        ctx.ob('bytes.failure', fn, any(v and f.op == 'is' and f.a[1] == 'Ok' and f.a[0].op == 'call' and f.a[0].a[0].endswith('xor_key_stream') for f, v in e.cf), 'bytes are returned although the stream failed')
    fn = 'random_int'
    r = ctx.run(RI, opaque=frozenset({BITS}))
    m, rand = r.p(1), r.p(2)
    for e in r.exits or [None]:
        if e is None:
            ctx.bad('exits', fn, 'no exit')
            break
        cf = e.cf
        v = e.cv()
        lim = (C('lt', v, m), True) in cf or any(b and f.op == 'eq' and any(callee(x, 'cmp') and x.a[1] is v and x.a[2] is m for x in f.a) and any(x.op == 'adt' and x.a[1] == 'Less' for x in f.a) for f, b in cf)
        ctx.ob('int.below', fn, lim, 'an integer can be returned that is not below the modulus')
        made = leaves(e.ret)
        ok = bool(made) and all(x.op == 'call' and x.a[0].endswith('from_bytes_be') for x in made)
        draws = [d for x in made for d in leaves(x.a[2])] if ok else []
        for d in draws:
            ok = ok and d.op == 'call' and d.a[0].endswith('bits') and len(d.a) == 4 and \
                callee(r.cv(d.a[1]), 'BigInt::bits', 'bits') and r.cv(d.a[1]).a[1] is m and is_int(d.a[2], 0) and all(z is rand for z in leaves_deep(d.a[3]))
        ctx.ob('int.uniform', fn, ok and bool(draws), 'the returned integer is not one whole draw of as many bits as the modulus has (rejection sampling)')
        adv = ok and all(d.a[3] is rand or d.a[3].op in ('phi', 'mut') for d in draws)
        ctx.ob('int.redraw', fn, adv, 'a rejected draw is not followed by a new draw of the stream')
    # scalars
    r = ctx.run('group::edwards25519::scalar::Scalar as Scalar::pick', opaque=frozenset({RI}))
    for e in r.exits:
        hits = [x for x in absint_sub(e.ret) if x.op == 'call' and x.a[0].endswith('random_int')]
        okp = len(set(hits)) == 1 and hits[0].a[2] is r.p(2) and 'PRIME_ORDER' in show(hits[0].a[1])
        ctx.ob('scalar.pick', 'Scalar::pick', okp, 'a picked scalar is not one random integer below the group order, drawn from the given stream')
    r = ctx.run('group::integer_field::integer::Int as Scalar::pick', opaque=frozenset({RI}))
    for e in r.exits:
        v = fld(e.ret, 'v')
        ctx.ob('scalar.pick', 'Int::pick', v.op == 'call' and v.a[0].endswith('random_int') and v.a[1] is mk('field', r.p(1), 'm') and v.a[2] is r.p(2), 'a picked integer is not one random integer below the modulus, drawn from the given stream')
    # key generation
    r = ctx.run('group::edwards25519::curve::Curve::new_key_and_seed', opaque=frozenset({BYTES, 'group::edwards25519::curve::Curve::new_key_and_seed_with_input'}))
    for e in need_ok(ctx, r, 'new_key_and_seed'):
        sd = [x for x in absint_sub(e.pay_raw) if x.op == 'mut' and x.a[0].endswith('bytes') and x.a[1] == 0]
        okp = len(set(sd)) == 1 and zeros(sd[0].a[2], c_int(32)) and sd[0].a[3] is r.p(2)
        ctx.ob('key.seed', 'new_key_and_seed', okp, 'the seed is not 32 bytes drawn from the given stream')
    r = ctx.run('util::key::key_pair::Pair::gen', opaque=frozenset())
    S, suite = r.p(1), r.p(2)
    for e in need_ok(ctx, r, 'Pair::gen'):
        f = e.st.mem.get(('O', S), S)
        pr = fld(f, 'private')
        okp = True
        al = [x for x, g in value_alts(pr)]
        for x in al:
            c = x
            while c.op == 'vf' and c.a[1] in ('Ok', 'Some'):
                c = c.a[0]
            if callee(c, 'new_key'):
                okp = okp and suite_stream(c.a[2], suite)
            elif callee(c, 'Scalar::pick'):
                okp = okp and suite_stream(c.a[2], suite)
            else:
                okp = False
        ctx.ob('key.private', 'Pair::gen', okp and bool(al), 'the private key is not drawn from the random stream of the suite')
        ctx.ob('key.public', 'Pair::gen', r.N.pt(r.cv(fld(f, 'public'))) == {B: {(r.cv(pr),): 1}}, 'the public key is not the private key times the base point')
    secret_draws(ctx)


def suite_stream(s, suite):
    while s.op == 'mut':
        s = s.a[2 + s.a[1]]
    if s.op == 'call' and s.a[0].endswith('random_stream'):
        return suite is None or s.a[1] is suite
    return False


def want_top(L, x, exact):
    k = L & 7
    if k:
        x &= (1 << k) - 1
    if exact:
        x |= 1 << (k - 1) if k else 0x80
    return x


def absint_sub(t):
    """all sub-terms, through the alternatives of joins"""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        if x.op == 'phi':
            stack += list(PHI_ALTS.get(x, ()))
        else:
            def push(a):
                for y in a:
                    if isinstance(y, tuple):
                        push(y)
                    elif hasattr(y, 'op'):
                        stack.append(y)
            push(x.a)
    return out


def stream_kind(s):
    """where the bytes of a stream come from: set of 'param', 'entropy', 'suite', 'reader', 'xof', 'other'"""
    out = set()
    for x in leaves_deep(s):
        if x.op in ('param', 'upv', 'field') or x.op == 'elem':
            out.add('param')
        elif x.op == 'call' and x.a[0].endswith('random_stream'):
            out.add('suite')
        elif x.op == 'adt' and x.a[0].endswith('RandStream'):
            rd = dict(x.a[2]).get('readers')
            for l in leaves(rd):
                items = list(l.a) if l.op == 'array' else None
                z = l
                its = []
                while items is None and z.op == 'mut' and z.a[0].endswith('push'):
                    its.append(z.a[3])
                    z = z.a[2]
                items = items if items is not None else its
                if any(callee(i, 'from_entropy') for i in items):
                    out.add('entropy')
                elif items:
                    out.add('reader')
                else:
                    out.add('other')
        elif callee(x, 'XOFFactory::xof', 'xof', 'Xof::new') or x.op == 'adt' and x.a[0].endswith('Xof'):
            out.add('xof')
        else:
            out.add('other')
    return out


def secret_draws(ctx):
    """every call site that draws a scalar or a polynomial takes a stream that is the caller's or a random one"""
    P = ctx.P
    sites = 0
    names = ('pick', 'new_pri_poly', 'new_key', 'new_key_and_seed')
    for b in P.bodies.values():
        if 'scalar_test_types' in b.path or 'bench' in b.path or 'util::test' in b.path or '{closure' in b.path:
            continue
        if not draws(P, b):
            continue
        try:
            r = ctx.run(b.clean, opaque=PROTO)
        except Missing:
            continue
        for ev_ in r.events:
            if ev_.kind != 'call':
                continue
            last = ev_.name.split('::')[-1]
            scalar = last == 'pick' and (ev_.name.startswith('Scalar::') or 'Scalar' in ev_.name or 'Int as' in ev_.name)
            if not (scalar or last == 'new_pri_poly'):
                continue
            s = ev_.args[-1]
            k = stream_kind(s)
            sites += 1
            good = not (k - {'param', 'suite', 'entropy', 'reader'})
            if 'reader' in k:
                # the caller's own source alone only when the caller says so
                good = good and only_on_request(r, s, ev_)
            ctx.ob('draw.source', '%s in %s' % (last, b.clean), good, 'a secret is drawn from a stream that is neither random nor the caller\'s', where(ev_))
    ctx.ob('draw.sites', 'library', sites >= 8, 'only %d draws of secrets were found' % sites)


def only_on_request(r, s, e):
    """a stream over nothing but the caller's reader is built only where the caller asked for that"""
    while s.op == 'mut':
        s = s.a[2 + s.a[1]]
    if s.op == 'adt':
        s2 = dict(s.a[2]).get('readers')
        s = s2 if s2 is not None else s
    hit = False
    for leaf, g in value_alts(s):
        k = stream_kind(leaf if leaf.op == 'adt' else mk('adt', 'RandStream', 'RandStream', (('readers', leaf),)))
        if 'reader' in k:
            hit = True
            cf = canon_facts(r.N, g | e.facts)
            if not any(v and f.op == 'field' and f.a[1] == 'user_reader_only' for f, v in cf):
                return False
    return hit


def draws(P, b):
    for blk in b.blocks:
        te = blk['te']
        fn = te.get('f', {}).get('fn') if te['t'] == 'call' else None
        if fn and fn.get('name') in ('pick', 'new_pri_poly'):
            return True
    return False
