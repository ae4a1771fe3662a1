"""Group layer: field and scalar limb arithmetic, curve formulas, scalar multiplication, encodings, constants."""
import limb as L
from limb import S
import fieldel as F
from fieldel import p, d, Lord, EXP
from unroll import Unroll, Unsupported, Panic, Ref, Sl, Str, En, Cond, deref

FE = 'group::edwards25519::fe::'
SC = 'group::edwards25519::scalar::'
INB = 3.3          # units of (2^25, 2^24): range the multiplication must accept
ENB = F.TOB


def body(ctx, name):
    b = ctx.P.find(name)
    if b is None:
        ctx.bad('anchor', name, 'function %s is not in the program: the rule has nothing to analyse' % name)
    return b


def exe(ctx, rule, name, args, hooks=None, U=None):
    """abstract execution; None (and a violation) when it cannot be analysed or panics"""
    b = body(ctx, name)
    if b is None:
        return None
    U = U or Unroll(ctx.P, hooks)
    try:
        U.begin()
        r = U.exec(b, args)
        if U.taken:
            raise Unsupported('control flow depends on the data')
    except Unsupported as e:
        ctx.bad(rule, name, 'cannot be followed: %s (near %s:%s)' % (e, (U.where or ('', ''))[0], (U.where or ('', ''))[1]))
        return None
    except Panic as e:
        ctx.bad(rule, name, 'can panic: %s' % e)
        return None
    ctx.fns |= U.fns
    ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
    U.ret = r
    return U


def branches(ctx, rule, name, mk, hooks=None, U=None):
    """every combination of undecided branches: list of (result, args, path condition)"""
    b = body(ctx, name)
    if b is None:
        return None
    U = U or Unroll(ctx.P, hooks)
    out = []

    def run(u):
        a = mk()
        out.append(a)
        return u.exec(b, a)
    try:
        res = U.paths(run)
    except Unsupported as e:
        ctx.bad(rule, name, 'cannot be followed: %s (near %s:%s)' % (e, (U.where or ('', ''))[0], (U.where or ('', ''))[1]))
        return None
    ctx.fns |= U.fns
    ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
    U.res = [(r, a, pc) for (r, pc), a in zip(res, out)]
    return U


def cov(ctx):
    if not hasattr(ctx, 'cov'):
        ctx.cov = {}


def fe_in(name, b=INB):
    return [L.inp(name, i, -int(b * 2 ** (25 - i % 2)), int(b * 2 ** (25 - i % 2))) for i in range(10)]


def val(limbs, exp=EXP):
    r = {}
    for x, e in zip(limbs, exp):
        r = L.padd(r, L.pscale(L.P(x), 1 << e))
    return r


def r0(v):
    return Ref([v], 0)


def bounded(limbs, b):
    for i, x in enumerate(limbs):
        lo, hi = L.R(x)
        m = b * 2 ** (25 - i % 2)
        if lo < -m or hi > m:
            return 'limb %d ranges over %d..%d' % (i, lo, hi)
    return None


def no_overflow(ctx, name, U):
    o = U.overflow
    ctx.ob('no-overflow', name, not o, '' if not o else '%s at %s:%s may leave %s (range %d..%d)' % (o[0][1], o[0][0][0], o[0][0][1], o[0][2], o[0][3], o[0][4]))


def fe_result(v):
    v = deref(v)
    return v if isinstance(v, list) and len(v) == 10 and all(isinstance(x, (int, S)) for x in v) else None


def congruent(a, b, n):
    q = L.padd(a, b, -1)
    q = L.pmod(L.telescope(q), n)
    return q


def why(q):
    return 'difference ' + L.pshow(q, 3) if q else ''


def fe_op(ctx, fn, nargs, want, b=INB, out=F.OUTB, msg=''):
    L.reset()
    name = FE + fn
    h = r0(fe_in('h0'))       # the previous content must not matter
    ins = [fe_in('fgk'[i], b) for i in range(nargs)]
    U = exe(ctx, 'field-' + fn, name, [h] + [r0(list(x)) for x in ins])
    if U is None:
        return
    no_overflow(ctx, name, U)
    r = fe_result(h)
    if r is None:
        ctx.bad('field-' + fn, name, 'does not leave a field element in its destination')
        return
    w = want(*[val(x) for x in ins])
    q = congruent(val(r), w, p)
    ctx.ob('field-' + fn, name, not q, '%s does not hold modulo 2^255-19 for all limbs: %s' % (msg, why(q)))
    if out:
        e = bounded(r, out)
        ctx.ob('field-range', name, e is None, 'the result leaves the range later operations rely on: %s' % e)


def G05(ctx):
    """field arithmetic modulo 2^255-19"""
    cov(ctx)
    one = {(): 1}
    fe_op(ctx, 'fe_mul', 2, lambda f, g: L.pmul(f, g), msg='h = f g')
    fe_op(ctx, 'fe_square', 1, lambda f: L.pmul(f, f), msg='h = f^2')
    fe_op(ctx, 'fe_square2', 1, lambda f: L.pscale(L.pmul(f, f), 2), msg='h = 2 f^2')
    fe_op(ctx, 'fe_add', 2, lambda f, g: L.padd(f, g), b=30, out=60, msg='h = f + g')
    fe_op(ctx, 'fe_sub', 2, lambda f, g: L.padd(f, g, -1), b=30, out=60, msg='h = f - g')
    fe_op(ctx, 'fe_neg', 1, lambda f: L.pscale(f, -1), b=30, out=30, msg='h = -f')
    fe_op(ctx, 'fe_copy', 1, lambda f: f, b=30, out=30, msg='h = f')
    fe_op(ctx, 'fe_zero', 0, lambda: {}, out=0, msg='h = 0')
    fe_op(ctx, 'fe_one', 0, lambda: one, msg='h = 1')
    # conditional move
    for b in (0, 1):
        L.reset()
        f, g = fe_in('f', 30), fe_in('g', 30)
        h = r0(list(f))
        U = exe(ctx, 'field-move', FE + 'fe_c_move', [h, r0(list(g)), b])
        if U:
            r = fe_result(h)
            w = g if b else f
            ctx.ob('field-move', FE + 'fe_c_move', r is not None and all(L.pkey(L.P(x)) == L.pkey(L.P(y)) for x, y in zip(r, w)),
                   'with selector %d the destination does not hold %s' % (b, 'the source' if b else 'its old value'))
    # decoding
    L.reset()
    s = [L.inp('s', i, 0, 255) for i in range(32)]
    h = r0(fe_in('h0'))
    U = exe(ctx, 'field-decode', FE + 'fe_from_bytes', [h, Sl(list(s), 0, 32)])
    if U:
        no_overflow(ctx, FE + 'fe_from_bytes', U)
        r = fe_result(h)
        w = {}
        for i in range(31):
            w = L.padd(w, L.pscale(L.P(s[i]), 1 << 8 * i))
        w = L.padd(w, L.pscale(L.P(L.mask(s[31], 127)), 1 << 248))
        q = congruent(val(r), w, p) if r else None
        ctx.ob('field-decode', FE + 'fe_from_bytes', r is not None and not q, 'the decoded element is not the little endian number in the low 255 bits: %s' % why(q))
        if r:
            e = bounded(r, F.OUTB)
            ctx.ob('field-range', FE + 'fe_from_bytes', e is None, 'the result leaves the range later operations rely on: %s' % e)
    # encoding
    L.reset()
    f = fe_in('f', ENB)
    out = r0([0] * 32)
    U = exe(ctx, 'field-encode', FE + 'fe_to_bytes', [out, r0(list(f))])
    if U:
        no_overflow(ctx, FE + 'fe_to_bytes', U)
        e = encode_ok(deref(out), f)
        ctx.ob('field-encode', FE + 'fe_to_bytes', e is None, 'the bytes are not the value reduced into 0..2^255-20: %s' % e)
    # sign and zero tests
    fe_tests(ctx)
    # exponentiations
    for fn, e, what in (('fe_invert', p - 2, 'p-2'), ('fe_pow22523', 2 ** 252 - 3, '2^252-3')):
        fd = F.Field()
        del fd.hooks[FE + fn]
        h = r0([0] * 10)
        U = exe(ctx, 'field-power', FE + fn, [h, r0(F.FEl(F.var('z'), F.OUTB))], fd.hooks)
        if U:
            try:
                r = F.fel(h)
            except Unsupported:
                r = None
            g = None
            if r is not None and len(r.p) == 1:
                (m, c), = r.p.items()
                if c == 1 and len(m) == 1:
                    g = m[0][1]
            ctx.ob('field-power', FE + fn, g == e, 'the addition chain does not compute the power %s%s' % (what, '' if g is None else ' but one that differs by %d' % (g - e)))
            ctx.ob('field-range', FE + fn, not fd.problems, str(fd.problems[:1]))
            ctx.ob('field-range', FE + fn + ' result', r is not None and r.b <= F.OUTB, 'the result of the addition chain is not reduced')


def encode_ok(out, f):
    """None when the bytes are the canonical encoding of the field element with limbs f"""
    if not isinstance(out, list) or len(out) != 32:
        return 'not 32 bytes'
    bits = []
    for x in out:
        l = L.layout(x, 8)
        bits += l
    if bits[255] != 0:
        return 'bit 255 may be set'
    V = L.unfield(L.P(L.from_layout(bits[:255])))
    H = val(f)
    rest = L.padd(V, H, -1)
    # V - H = 19 q - 2^255 c
    qs = [(m, c) for m, c in rest.items()]
    q = c = None
    for m, k in qs:
        if len(m) == 1 and m[0][1] == 1 and L.ATOMS[m[0][0]][0] == 'q':
            if k == 19:
                q = m
            elif k == -(1 << 255):
                c = m
    if len(qs) == 1 and qs[0][1] == -p:        # already in the form H - p q
        q = c = qs[0][0]
    elif q is None or c is None or len(qs) != 2:
        return 'the bytes do not add up to the element minus a multiple of the modulus (%s)' % L.pshow(rest, 3)
    else:
        N, s = L.unquot({c: 1})
        if s != 255 or N != L.padd(H, L.pscale({q: 1}, 19)):
            return 'the carry out of the top limb is not that of the value plus 19 q'
    N, s = L.unquot({q: 1})
    # q = floor((H + delta) / 2^255), delta = (19 h9 + C) / 2^25
    k = s - 255
    if k < 0:
        return 'quotient estimate'
    left = L.padd(N, L.pscale(H, 1 << k), -1)
    t = L.P(f[9])
    left = L.padd(left, L.pscale(t, 19 << (k - 25)) if k >= 25 else {}, -1)
    if k < 25 or set(left) - {()}:
        return 'the quotient is not estimated from the value and its top limb'
    C = left.get((), 0)
    # with |h| within its bound, 0 < C/2^k - |error| and C/2^k + |error| < 1 suffice
    if not (1 << (k - 2)) <= C <= 3 << (k - 2):
        return 'the rounding constant of the quotient estimate is off'
    return None


def fe_tests(ctx):
    L.reset()
    by = [L.inp('enc', j, 0, 127 if j == 31 else 255) for j in range(32)]

    def tb(U, a, t, dt):
        v = a[0]
        from unroll import view
        s = view(v)
        for j in range(32):
            s.c[s.o + j] = by[j]
        return []
    hooks = {FE + 'fe_to_bytes': tb}
    U = exe(ctx, 'field-sign', FE + 'fe_is_negative', [r0(fe_in('f'))], hooks)
    if U:
        w = L.mask(by[0], 1)
        ctx.ob('field-sign', FE + 'fe_is_negative', isinstance(U.ret, S) and U.ret.poly == w.poly, 'is not the lowest bit of the canonical encoding')
    U = branches(ctx, 'field-zero', FE + 'fe_is_non_zero', lambda: [r0(fe_in('f'))], hooks)
    if U:
        allbits = frozenset(b for x in by for b in L.layout(x))
        ok = True
        for r, a, pc in U.res:
            if isinstance(r, S) and not pc:
                l = L.layout(r)
                ok = ok and l == [('or', allbits)]
            elif isinstance(r, int):
                nz = [c for c, t in pc if not t]
                eq = {L.pkey(L.P(c.a)) for c, t in pc if t and c.op == 'Eq'}
                if r == 0:
                    ok = ok and all(any(k in (L.pkey(L.P(x)), L.pkey(L.pscale(L.P(x), -1))) for k in eq) for x in by)
                else:
                    ok = ok and r == 1 and bool(nz)
            else:
                ok = False
        ctx.ob('field-zero', FE + 'fe_is_non_zero', ok and bool(U.res), 'is not 1 exactly when some bit of the canonical encoding is set')


# ------------------------------------------------------------------ scalars modulo the group order
def by_in(name):
    return [L.inp(name, i, 0, 255) for i in range(32)]


def num(bs):
    r = {}
    for i, x in enumerate(bs):
        r = L.padd(r, L.pscale(L.P(x), 1 << 8 * i))
    return r


def sc_value(out):
    """(value polynomial, problem): the number 32 output bytes stand for, when they are the canonical packing of limbs below the group order"""
    if not isinstance(out, list) or len(out) != 32:
        return None, 'not 32 bytes'
    bits = []
    for x in out:
        bits += L.layout(x, 8)
    V = L.P(L.from_layout(bits))
    # the last limb: its bits are a field of a quantity that is known to be non-negative only through the argument below
    top = bits[255]
    if isinstance(top, tuple) and top[0] == 'b':
        n = top[2] + 1
        i = L.INDEX.get(('fld', (top[1], 0, n)))
        if i is None or ((i, 1),) not in V:
            return None, 'the most significant limb is not packed as a whole'
        c = V.pop(((i, 1),))
        V = L.padd(V, L.pscale(dict(top[1]), c))
    # V = N - 2^252 q - delta u with q = floor(N / 2^252), L = 2^252 + delta: 0 <= V < L when u in {-1, 0}
    delta = Lord - 2 ** 252
    for m, c in V.items():
        if len(m) == 1 and m[0][1] == 1 and L.ATOMS[m[0][0]][0] == 'q' and c == -Lord:
            cands = [(dict(k), r) for k, r in L.RNG.items() if -1 <= r[0] and r[1] <= 0 and (m, 1) in k]
            cands.append(({m: 1}, tuple(L.ATOMS[m[0][0]][2:])))
            for u, r in cands:
                if -1 <= r[0] and r[1] <= 0 and L.is_floor({m: 1}, L.padd(L.padd(V, {m: 1 << 252}), u, delta), 252):
                    return V, None
    return V, 'the result is not shown to lie below the group order'


# the arithmetic of scalars on bytes, and the method each part of it serves
SC_METHOD = {'sc_add': 'add', 'sc_mul': 'mul', 'sc_sub': 'sub'}


def scfn(P, fn):
    """the routine on 32 bytes behind an operation of the scalar type, whatever it is called"""
    name = SC + fn
    if fn not in SC_METHOD or P.find(name) is not None:
        return name
    arr = '&[u8; 32]'
    got = set()
    for b in P.bodies.values():
        m = b.path.split('::{closure')[0]
        if not m.startswith('<') or SC + 'Scalar as ' not in m or not m.endswith('::' + SC_METHOD[fn]):
            continue
        for bl in b.blocks:
            te = bl['te']
            if te['t'] == 'call':
                f = te['f'].get('fn') or {}
                q = P.bodies.get(f.get('p'))
                if q is not None and q.argc == 3 and [q.locals[i]['ty'].replace("'_ ", '') for i in (1, 2, 3)] == ['&mut [u8; 32]', arr, arr]:
                    got.add(q.path)
    return got.pop() if len(got) == 1 else name


def sc_op(ctx, fn, nargs, want, msg):
    L.reset()
    name = scfn(ctx.P, fn)
    ins = [by_in('abc'[i]) for i in range(nargs)]
    out = r0(by_in('s0'))
    U = exe(ctx, 'scalar-' + fn, name, [out] + [r0(list(x)) for x in ins])
    if U is None:
        return
    no_overflow(ctx, name, U)
    V, e = sc_value(deref(out))
    ctx.ob('scalar-canonical', name, e is None, str(e))
    if V is None:
        return
    q = congruent(V, want(*[num(x) for x in ins]), Lord)
    ctx.ob('scalar-' + fn, name, not q, '%s does not hold modulo the group order for all bytes: %s' % (msg, why(q)))


def G04(ctx):
    """scalar arithmetic modulo the group order"""
    cov(ctx)
    sc_op(ctx, 'sc_add', 2, lambda a, b: L.padd(a, b), 's = a + b')
    sc_op(ctx, 'sc_sub', 2, lambda a, b: L.padd(a, b, -1), 's = a - b')
    sc_op(ctx, 'sc_mul', 2, lambda a, b: L.pmul(a, b), 's = a b')
    sc_op(ctx, 'sc_mul_add', 3, lambda a, b, c: L.padd(L.pmul(a, b), c), 's = a b + c')
    from rules import group2
    group2.scalar_ops(ctx)


# ------------------------------------------------------------------ curve formulas
GE = 'group::edwards25519::ge::'
EXT, PRJ, CMP, PRE, CCH = (GE + n for n in ('ExtendedGroupElement', 'ProjectiveGroupElement', 'CompletedGroupElement', 'PreComputedGroupElement', 'CachedGroupElement'))


def V(n, e=1):
    return F.var(n, e)


def fe(poly, b=F.OUTB):
    return F.FEl(poly, b)


def aff(i):
    return 'x%d' % i, 'y%d' % i, 'z%d' % i


def mk_ext(i, b=F.OUTB):
    x, y, z = aff(i)
    return Str(EXT, {'x': fe(F.prod(V(x), V(z)), b), 'y': fe(F.prod(V(y), V(z)), b), 'z': fe(V(z), b), 't': fe(F.prod(V(x), V(y), V(z)), b)})


def mk_prj(i):
    x, y, z = aff(i)
    return Str(PRJ, {'x': fe(F.prod(V(x), V(z))), 'y': fe(F.prod(V(y), V(z))), 'z': fe(V(z))})


def mk_cmp(i, b):
    """x = X/Z, y = Y/T with unrelated denominators"""
    x, y, z = aff(i)
    return Str(CMP, {'x': fe(F.prod(V(x), V(z)), b), 'y': fe(F.prod(V(y), V('u%d' % i)), b), 'z': fe(V(z), b), 't': fe(V('u%d' % i), b)})


def mk_cch(i, b=2 * F.OUTB):
    x, y, z = aff(i)
    return Str(CCH, {'y_plus_x': fe(F.prod(F.add(V(y), V(x)), V(z)), b), 'y_minus_x': fe(F.prod(F.add(V(y), V(x), -1), V(z)), b),
                     'z': fe(V(z)), 't2d': fe(F.prod(F.con(2 * d), V(x), V(y), V(z)))})


def mk_pre(i, b=F.OUTB):
    x, y, z = aff(i)
    return Str(PRE, {'y_plus_x': fe(F.add(V(y), V(x)), b), 'y_minus_x': fe(F.add(V(y), V(x), -1), b), 'xy2d': fe(F.prod(F.con(2 * d), V(x), V(y)), b)})


def junk(adt, names):
    """arbitrary previous content of a destination"""
    return Str(adt, {n: fe(V('old_' + n), 1000.0) for n in names})


FIELDS = {EXT: 'xyzt', PRJ: 'xyz', CMP: 'xyzt', PRE: ('y_plus_x', 'y_minus_x', 'xy2d'), CCH: ('y_plus_x', 'y_minus_x', 'z', 't2d')}


def old(adt):
    return junk(adt, list(FIELDS[adt]))


def law(i, j, sgn=1):
    """(Nx, Dx, Ny, Dy) of the sum of points i and j (or the difference)"""
    x1, y1, x2, y2 = V('x%d' % i), V('y%d' % i), V('x%d' % j), V('y%d' % j)
    if sgn < 0:
        x2 = F.add({}, x2, -1)
    k = F.prod(F.con(d), x1, x2, y1, y2)
    return (F.add(F.prod(x1, y2), F.prod(x2, y1)), F.add(F.con(1), k), F.add(F.prod(y1, y2), F.prod(x1, x2)), F.add(F.con(1), k, -1))


def unit(q, pts):
    """is q a non-zero constant times a product of powers of z coordinates?  (constant, monomial)"""
    if len(q) == 1:
        (m, c), = q.items()
        if all(n[0] in 'zu' for n, e in m):
            return True
    return False


def ratio(ctx, rule, construct, num, den, N, D, pts, what):
    """num/den = N/D with den a non-zero multiple of D by z coordinates"""
    xs = [('x%d' % i, 'y%d' % i) for i in pts]
    q = F.curve(F.add(F.mul(num, D), F.mul(den, N), -1), xs)
    ok = not q
    # den = c * monomial * D
    dr, Dr = F.curve(den, xs), F.curve(D, xs)
    found = False
    if dr and Dr:
        import itertools
        zs = sorted({n for m in dr for n, e in m if n[0] in 'zu'})
        for es in itertools.product(range(-2, 7), repeat=len(zs)):
            mono = {tuple(sorted(((n, e) for n, e in zip(zs, es) if e), key=repr)): 1}
            t = F.curve(F.mul(mono, D), xs)
            m0 = next(iter(t))
            if m0 in dr:
                c = dr[m0] * pow(t[m0], p - 2, p) % p
                if F.add(F.mul(F.con(c), t), dr, -1) == {}:
                    found = True
                    break
    ctx.ob(rule, construct + ' ' + what, ok and found,
           'the %s coordinate does not follow the addition law' % what if not ok else 'the denominator of the %s coordinate can vanish' % what)


def getf(s, n):
    s = deref(s)
    return F.fel(s[n])


def run_ge(ctx, rule, name, args, fd=None):
    fd = fd or F.Field()
    U = exe(ctx, rule, name, args, fd.hooks)
    if U:
        ctx.ob('field-precondition', name, not fd.problems, '' if not fd.problems else '%s at %s:%s' % (fd.problems[0][1], fd.problems[0][0][0], fd.problems[0][0][1]))
        ctx.cov['field_operations_followed'] = ctx.cov.get('field_operations_followed', 0) + sum(fd.seen.values())
    return U


def chk(ctx, rule, name, f):
    try:
        f()
    except (Unsupported, KeyError, AttributeError, TypeError) as e:
        ctx.bad(rule, name, 'result is not a representation of a point (%r)' % (e,))


def reduced(ctx, name, s, names, b=F.OUTB):
    worst = max(getf(s, n).b for n in names)
    ctx.ob('field-range', name, worst <= b + 1e-9, 'coordinates leave the range the formulas rely on (%.2f > %.2f)' % (worst, b))


def points_equal(ctx, rule, name, s, x, y, kind, pts):
    """the struct s represents the affine point (x, y) (polynomials)"""
    one = F.con(1)

    def go():
        if kind in (EXT, PRJ, CMP):
            zx = getf(s, 'z').p
            zy = getf(s, 't').p if kind == CMP else zx
            ctx.ob(rule, name + ' z', unit(zx, pts) and unit(zy, pts), 'the denominator can vanish')
            ctx.ob(rule, name + ' x', F.add(getf(s, 'x').p, F.mul(x, zx), -1) == {}, 'the x coordinate is wrong')
            ctx.ob(rule, name + ' y', F.add(getf(s, 'y').p, F.mul(y, zy), -1) == {}, 'the y coordinate is wrong')
            if kind == EXT:
                ctx.ob(rule, name + ' t', F.add(getf(s, 't').p, F.prod(x, y, zx), -1) == {}, 'the t coordinate is not xy')
            if kind != CMP:
                reduced(ctx, name, s, FIELDS[kind])
        else:
            z = getf(s, 'z').p if kind == CCH else one
            k = 't2d' if kind == CCH else 'xy2d'
            ctx.ob(rule, name + ' z', unit(z, pts), 'the denominator can vanish')
            ctx.ob(rule, name + ' y+x', F.add(getf(s, 'y_plus_x').p, F.mul(F.add(y, x), z), -1) == {}, 'the field y+x is wrong')
            ctx.ob(rule, name + ' y-x', F.add(getf(s, 'y_minus_x').p, F.mul(F.add(y, x, -1), z), -1) == {}, 'the field y-x is wrong')
            ctx.ob(rule, name + ' 2dxy', F.add(getf(s, k).p, F.prod(F.con(2 * d), x, y, z), -1) == {}, 'the field 2dxy is wrong')
            reduced(ctx, name, s, FIELDS[kind], 2 * F.OUTB)
    chk(ctx, rule, name, go)


def sums(ctx, rule, name, s, i, j, sgn):
    Nx, Dx, Ny, Dy = law(i, j, sgn)
    pts = (i,) if i == j else (i, j)

    def go():
        ratio(ctx, rule, name, getf(s, 'x').p, getf(s, 'z').p, Nx, Dx, pts, 'x')
        ratio(ctx, rule, name, getf(s, 'y').p, getf(s, 't').p, Ny, Dy, pts, 'y')
        reduced(ctx, name, s, FIELDS[CMP], F.MULB)
    chk(ctx, rule, name, go)


def G06(ctx):
    """curve formulas and point operations"""
    cov(ctx)
    x1, y1 = V('x1'), V('y1')
    nx1 = F.add({}, x1, -1)
    zero, one = {}, F.con(1)
    # sums and differences into the completed form
    for fn, second, sgn in (('add', mk_cch, 1), ('sub', mk_cch, -1), ('mixed_add', mk_pre, 1), ('mixed_sub', mk_pre, -1)):
        name = CMP + '::' + fn
        if fn == 'mixed_sub' and ctx.P.find(name) is None:
            continue
        byval = ctx.P.find(name) is not None and not ctx.P.find(name).locals[2]['ty'].startswith('&')
        out = r0(old(CMP))
        a, b = mk_ext(1), second(2)
        U = run_ge(ctx, 'curve-sum', name, [out] + ([a, b] if byval else [r0(a), r0(b)]))
        if U:
            sums(ctx, 'curve-sum', name, out, 1, 2, sgn)
    # doubling
    for kind, mk in ((PRJ, mk_prj), (EXT, mk_ext)):
        name = kind + '::double'
        out = r0(old(CMP))
        U = run_ge(ctx, 'curve-double', name, [r0(mk(1)), out])
        if U:
            sums(ctx, 'curve-double', name, out, 1, 1, 1)
    # changes of representation
    for name, src, dst in ((CMP + '::to_projective', lambda: mk_cmp(1, F.MULB), PRJ), (CMP + '::to_extended', lambda: mk_cmp(1, F.MULB), EXT),
                           (EXT + '::write_cached', lambda: mk_ext(1), CCH), (EXT + '::write_projective', lambda: mk_ext(1), PRJ)):
        if name.endswith('write_projective') and ctx.P.find(name) is None:
            continue
        out = r0(old(dst))
        U = run_ge(ctx, 'curve-convert', name, [r0(src()), out])
        if U:
            points_equal(ctx, 'curve-convert', name, out, x1, y1, dst, (1,))
    for kind, mk in ((EXT, mk_ext), (PRE, mk_pre), (CCH, mk_cch)):
        name = kind + '::neg'
        out = r0(old(kind))
        U = run_ge(ctx, 'curve-neg', name, [out, r0(mk(1))])
        if U:
            points_equal(ctx, 'curve-neg', name, out, nx1, y1, kind, (1,))
    for kind in (EXT, PRJ, PRE, CCH):
        name = kind + '::zero'
        if kind == PRJ and ctx.P.find(name) is None:
            continue
        out = r0(old(kind))
        U = run_ge(ctx, 'curve-zero', name, [out])
        if U:
            points_equal(ctx, 'curve-zero', name, out, zero, one, kind, ())
    for kind, mk in ((PRE, mk_pre), (CCH, mk_cch)):
        for b in (0, 1):
            name = kind + '::cmove'
            out = r0(mk(1))
            U = run_ge(ctx, 'curve-move', name, [out, r0(mk(2)), b])
            if U:
                points_equal(ctx, 'curve-move', '%s(%d)' % (name, b), out, V('x%d' % (1 + b)), V('y%d' % (1 + b)), kind, (1, 2))
    from rules import group2
    group2.select_tables(ctx)
    group2.scalar_mult(ctx)
    group2.point_ops(ctx)


def __getattr__(n):
    from rules import group2
    return getattr(group2, n)
