"""Group layer, second part: scalar values, scalar multiplication, encodings, canonicality, constants, modular integers."""
import limb as L
from limb import S
import fieldel as F
from fieldel import p, d, Lord
import bigval as B
from bigval import BigS
from unroll import SECRET, Leak, Unroll, Unsupported, Panic, Ref, Sl, Str, En, Cond, Big, deref, view, some, NONE
from rules.group import (scfn, FE, SC, GE, EXT, PRJ, CMP, PRE, CCH, FIELDS, body, exe, branches, cov, by_in, num, r0, V, fe, mk_ext, mk_cch, mk_pre, junk, old, points_equal, getf, run_ge, chk,
                         why, no_overflow, congruent, fe_in)

PT = 'group::edwards25519::point::Point'
SCA = SC + 'Scalar'
INTT = 'group::integer_field::integer::Int'
CONST = 'group::edwards25519::constants::'


# ------------------------------------------------------------------ numbers: the curve, independently of the code
def padd(P, Q):
    (x1, y1), (x2, y2) = P, Q
    k = d * x1 * x2 % p * y1 % p * y2 % p
    return ((x1 * y2 + x2 * y1) * pow(1 + k, p - 2, p) % p, (y1 * y2 + x1 * x2) * pow(1 - k, p - 2, p) % p)


def recover_x(y, sign):
    xx = (y * y - 1) * pow(d * y * y + 1, p - 2, p) % p
    x = pow(xx, (p + 3) // 8, p)
    if (x * x - xx) % p:
        x = x * pow(2, (p - 1) // 4, p) % p
    if (x * x - xx) % p:
        return None
    return p - x if x % 2 != sign else x


BY = 4 * pow(5, p - 2, p) % p
BASEPT = (recover_x(BY, 0), BY)


def small_order_y():
    """the y coordinates of the points whose order divides 8"""
    ys = {1, p - 1, 0}
    # 2P has y = 0 and x = +-i:  for P = (x, y) with 2P = (i', 0):  y^2 = -x^2 ; with the curve equation 2 y^2 = 1 - d y^4
    # d y^4 + 2 y^2 - 1 = 0  ->  y^2 = (-1 +- sqrt(1 + d)) / d
    s = sqrt(1 + d)
    if s is not None:
        for r in (s, p - s):
            q = (r - 1) * pow(d, p - 2, p) % p
            y = sqrt(q)
            if y is not None and recover_x(y, 0) is not None:
                ys |= {y, p - y}
    return ys


def sqrt(a):
    a %= p
    x = pow(a, (p + 3) // 8, p)
    if (x * x - a) % p:
        x = x * pow(2, (p - 1) // 4, p) % p
    return x if (x * x - a) % p == 0 else None


# ------------------------------------------------------------------ the scalar domain
class Scalars:
    """bytes of scalars as polynomials modulo the group order; hooks for the limb routines"""

    def __init__(self, P):
        self.val = {}
        self.red = set()
        self.n = 0
        self.hooks = {scfn(P, 'sc_add'): self.op(lambda a, b: self.add(a, b)), scfn(P, 'sc_sub'): self.op(lambda a, b: self.add(a, b, -1)),
                      scfn(P, 'sc_mul'): self.op(self.mul), SC + 'sc_mul_add': self.op(lambda a, b, c: self.add(self.mul(a, b), c))}

    @staticmethod
    def add(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % Lord
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                t = F.mm(m, n)
                v = (r.get(t, 0) + c * e) % Lord
                if v:
                    r[t] = v
                else:
                    r.pop(t, None)
        if len(r) > 2000:
            raise Unsupported('scalar expression too large')
        return r

    def new(self, name=None, poly=None, reduced=False):
        """32 bytes standing for a scalar"""
        if name is None:
            self.n += 1
            name = ('sc', self.n)
        self.val[name] = poly if poly is not None else {((name, 1),): 1}
        if reduced:
            self.red.add(name)
        return [L.inp(name, i, 0, 255 if i < 31 else 16 if reduced else 255) for i in range(32)]

    def of(self, v):
        v = view(v) if not isinstance(v, list) else v
        b = v.items() if isinstance(v, Sl) else v
        if len(b) != 32:
            raise Unsupported('scalar of %d bytes' % len(b))
        if all(isinstance(x, int) for x in b):
            c = int.from_bytes(bytes(b), 'little')
            return {(): c % Lord} if c % Lord else {}
        n = self.name(b)
        if n is None:
            raise Unsupported('bytes that are not a scalar as a whole')
        return self.val[n]

    def name(self, b):
        name = None
        for i, x in enumerate(b):
            if not isinstance(x, S) or len(x.poly) != 1:
                return None
            (m, c), = x.poly.items()
            if c != 1 or len(m) != 1:
                return None
            k, dd = L.ATOMS[m[0][0]][:2]
            if k != 'in' or dd[1] != i or (name is not None and dd[0] != name):
                return None
            name = dd[0]
        return name if name in self.val else None

    def canonical(self, b):
        """are the bytes known to encode a number below the group order?"""
        b = deref(b)
        if all(isinstance(x, int) for x in b):
            return int.from_bytes(bytes(b), 'little') < Lord
        return self.name(b) in self.red

    def op(self, f):
        def h(U, a, t, dt):
            r = self.new(None, f(*[self.of(x) for x in a[1:]]), True)
            s = view(a[0])
            s.c[s.o:s.o + 32] = r
            return []
        return h


def sval(v):
    """the bytes of a Scalar value"""
    v = deref(v)
    if isinstance(v, Str):
        v = v.get('v')
    return v if isinstance(v, list) else None


def mk_sc(b):
    return Str(SCA, {'v': list(b)})


def scalar_method(ctx, D, name, b, mk, want, what, names=None):
    U = Unroll(ctx.P, D.hooks)
    try:
        U.begin()
        r = U.exec(b, mk())
        if U.taken:
            raise Unsupported('control flow depends on the scalar')
        v = sval(r)
        q = D.add(D.of(v), want, -1)
        ctx.ob('scalar-value', name, not q, '%s is not what it returns' % what)
        ctx.ob('scalar-reduced', name, D.canonical(v), 'the result is not in canonical form')
    except Unsupported as e:
        ctx.bad('scalar-value', name, 'cannot be followed: %s (near %s)' % (e, U.where))
    except Panic as e:
        ctx.bad('scalar-value', name, 'can panic: %s' % e)
    ctx.fns |= U.fns


def scalar_ops(ctx):
    """the methods of the scalar type over the limb routines"""
    for trait, what in (('Add::add', 'the sum'), ('Mul::mul', 'the product')):
        l = ctx.P.by_clean.get(SCA + ' as ' + trait) or []
        ctx.ob('scalar-impls', SCA + ' ' + trait, bool(l), 'no implementation of the operator')
        for i, b in enumerate(l):
            L.reset()
            D = Scalars(ctx.P)
            x, y = D.new('a'), D.new('b')
            args = [mk_sc(z) if not b.locals[j + 1]['ty'].startswith('&') else r0(mk_sc(z)) for j, z in enumerate((x, y))]
            w = D.add(D.val['a'], D.val['b']) if trait.startswith('Add') else D.mul(D.val['a'], D.val['b'])
            scalar_method(ctx, D, '%s as %s #%d' % (SCA, trait, i), b, lambda: args, w, what)
    one = {(): 1}
    for fn, n, want, what in (('sub', 2, lambda D, a, b: D.add(a, b, -1), 'the difference'), ('neg', 1, lambda D, a: D.add({}, a, -1), 'the negation'),
                              ('inv', 1, lambda D, a: {((D.only(a), Lord - 2),): 1}, 'the inverse'),
                              ('div', 2, lambda D, a, b: D.mul(a, {((D.only(b), Lord - 2),): 1}), 'the quotient'),
                              ('one', 0, lambda D: one, 'one'), ('zero', 0, lambda D: {}, 'zero')):
        name = SCA + ' as Scalar::' + fn
        b = body(ctx, name)
        if b is None:
            continue
        L.reset()
        D = Scalars(ctx.P)
        D.only = lambda q: next(iter(q))[0][0]
        ins = [D.new('ab'[i]) for i in range(n)]
        w = want(D, *[D.val['ab'[i]] for i in range(n)])
        scalar_method(ctx, D, name, b, lambda: [mk_sc(D.new('old'))] + [r0(mk_sc(x)) for x in ins], w, what)
    # copying keeps the bytes
    name = SCA + ' as Scalar::set'
    L.reset()
    a = by_in('a')
    U = exe(ctx, 'scalar-value', name, [mk_sc(by_in('old')), r0(mk_sc(a))])
    if U:
        v = sval(U.ret)
        ctx.ob('scalar-value', name, v is not None and same(v, a), 'does not return a copy')


def same(v, w):
    return len(v) == len(w) and all(L.pkey(L.P(x)) == L.pkey(L.P(y)) for x, y in zip(v, w))


def limbs_as_integers(P):
    """the limb routines by their meaning: 32 bytes of the exact result modulo the group order"""
    def op(f):
        def h(U, a, t, dt):
            ins = []
            for x in a[1:]:
                b = view(x).items()
                ins.append(BigS(num(b), (0, 0), (0, 2 ** 256 - 1)))
            r = B.arith('rem', f(*ins), Big(Lord))
            name = ('dig', L.pkey(r.poly), 'fix')
            B.DIG[name] = (r.poly, 32, (0, Lord - 1))
            s = view(a[0])
            s.c[s.o:s.o + 32] = [L.inp(name, i, 0, 255 if i < 31 else 16) for i in range(32)]
            return []
        return h
    ar = B.arith
    return {scfn(P, 'sc_add'): op(lambda a, b: ar('add', a, b)), scfn(P, 'sc_sub'): op(lambda a, b: ar('sub', ar('add', a, Big(16 * Lord)), b)),
            scfn(P, 'sc_mul'): op(lambda a, b: ar('mul', a, b)), SC + 'sc_mul_add': op(lambda a, b, c: ar('add', ar('mul', a, b), c))}


def scalar_from_ints(ctx):
    """values that come from integers, byte strings and the random stream"""
    LB = Big(Lord)

    def rnd(U, a, t, dt):
        m = B.of(deref(a[0]))
        return B.symbol('rnd', (0, 0), B.badd(m.hi, (0, -1)))
    cases = [('set_int64', [('i64', lambda: L.inp('i', 0, -2 ** 63, 2 ** 63 - 1))], lambda a: a[1].poly),
             ('pick', [('stream', lambda: r0(('stream',)))], lambda a: B.symbol('rnd', (0, 0), (0, Lord - 1)).poly)]
    for n in (1, 16, 31, 32, 33, 64):
        cases.append(('set_bytes', [('%d bytes' % n, lambda n=n: Sl([L.inp('d', i, 0, 255) for i in range(n)], 0, n))], lambda a: num(a[1].items())))
    for fn, variants, want in cases:
        name = SCA + ' as Scalar::' + fn
        for lab, mk in variants:
            B.reset()
            U = branches(ctx, 'scalar-from', name, lambda: [mk_sc(by_in('old')), mk()], {**limbs_as_integers(ctx.P), 'util::random::random_stream::random_int': rnd})
            if U is None:
                return
            report(ctx, 'scalar-from', '%s (%s)' % (name, lab), U, lambda r, a: sval(r), want, LB)
    name = SCA + ' as BinaryMarshaler::marshal_binary'
    B.reset()
    U = branches(ctx, 'scalar-encode', name, lambda: [r0(mk_sc(by_in('a')))], limbs_as_integers(ctx.P))
    if U:
        report(ctx, 'scalar-encode', name, U, lambda r, a: r.f[0] if isinstance(r, En) and r.var == 'Ok' else None, lambda a: num(sval(a[0])), LB)


def report(ctx, rule, name, U, get, want, mod):
    bad = None
    for (r, a, pc), facts in zip(U.res, U.pfacts):
        if isinstance(r, Panic):
            bad = 'can panic: %s' % r
            break
        v = get(r, a)
        if v is None or len(v) != 32:
            bad = 'does not give 32 bytes'
            break
        n = num(v)
        q = B.congruent(n, assume(want(a), facts), B.of(mod))
        if q:
            q = assume(q, facts)
        if q:
            bad = 'the bytes do not stand for the value modulo the group order: %s' % why(q)
            break
        u = B.undigit(n)
        if () in u and len(u) == 1:
            ok = 0 <= u[()] < mod.v
        elif not u:
            ok = True
        else:
            ok = any(L.pkey(q) == L.pkey(u) and hi is not None and hi[0] == 0 and hi[1] < mod.v for q, hi in HI(u))
        if not ok:
            bad = 'the bytes are not the canonical representative'
            break
    ctx.ob(rule, name, bad is None and bool(U.res), str(bad))
    ctx.cov['cases_split'] = ctx.cov.get('cases_split', 0) + len(U.res)


def assume(q, facts):
    """under the equations this path has established"""
    for k, e in facts:
        if k == 'zero' and len(e) == 1:
            (m, c), = e.items()
            if len(m) == 1 and m[0][1] == 1:
                q = L.substitute(q, {m[0][0]: {}})
        elif k == 'zero':
            # one variable expressed by the others
            for m, c in e.items():
                if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
                    q = L.substitute(q, {m[0][0]: L.pscale({n: x for n, x in e.items() if n != m}, -c)})
                    break
    return q


def HI(u):
    for name, (q, n, hi) in B.DIG.items():
        yield q, hi


def scalar_decode(ctx):
    name = SCA + ' as BinaryUnmarshaler::unmarshal_binary'
    if body(ctx, name) is None:
        return
    for n in (0, 1, 31, 32, 33, 64):
        L.reset()
        data = [L.inp('d', i, 0, 255) for i in range(n)]
        oldv = by_in('old')
        U = branches(ctx, 'scalar-decode', name, lambda: [r0(mk_sc(oldv)), Sl(list(data), 0, n)])
        if U is None:
            return
        for r, a, pc in U.res:
            ok = isinstance(r, En) and r.var == ('Ok' if n == 32 else 'Err') and same(sval(a[0]), data if n == 32 else oldv)
            ctx.ob('scalar-decode', '%s (%d bytes)' % (name, n), ok, 'accepts a wrong length, refuses 32 bytes or changes them' if not isinstance(r, Panic) else 'can panic: %s' % r)


def eq_all(ctx, name, mk, pairs_of, hooks=None):
    """an equality test: true exactly when all 32 pairs are equal"""
    U = branches(ctx, "equality", name, mk, hooks)
    if U is None:
        return
    bad = None
    for r, a, pc in U.res:
        if isinstance(r, Panic):
            bad = 'can panic'
            break
        pairs = {frozenset((L.pkey(q), L.pkey(L.pscale(q, -1)))) for q in pairs_of(a)}
        known = set()
        neq = set()
        for c, t in pc:
            if c.op == 'Eq':
                dd = nulls(L.padd(L.P(c.a), L.P(c.b), -1)) or set()
                if t:
                    known |= dd
                elif dd <= pairs:
                    neq |= dd
        if isinstance(r, Cond):
            conj = flat(r)
            if conj is None:
                bad = 'the result is not a conjunction of byte comparisons'
                break
            got = conj | known
            if got != pairs:
                bad = 'compares %d of %d bytes' % (len(got & pairs), len(pairs))
                break
        elif r is True:
            if known != pairs:
                bad = 'compares %d of %d bytes' % (len(known & pairs), len(pairs))
                break
        elif r is False:
            if not (neq & pairs):
                bad = 'says different although no byte differs'
                break
        else:
            bad = 'result %r' % (r,)
            break
    ctx.ob('equality', name, bad is None and bool(U.res), str(bad))


def nulls(q):
    """the differences that all vanish exactly when the number q (a polynomial, not negative) does"""
    if len(q) == 1:
        (m, c), = q.items()
        if len(m) == 1:
            k, dd, lo = L.ATOMS[m[0][0]][:3]
            if k == 'or' and lo >= 0:
                out = set()
                for x in dd:
                    r = nulls(dict(x))
                    if r is None:
                        return None
                    out |= r
                return out
            if k == 'xor' and len(dd) == 2:
                x, y = [dict(z) for z in dd]
                q = L.padd(x, y, -1)
                return {frozenset((L.pkey(q), L.pkey(L.pscale(q, -1))))}
    l = L.LAY.get(L.pkey(q)) or (L.sum_layout(q) if q else None)
    if l and any(isinstance(b, tuple) and b[0] == 'or' for b in l):
        base = {}
        for b in l:
            for x in (() if b == 0 else b[1] if isinstance(b, tuple) and b[0] == 'or' else (b,)):
                if not isinstance(x, tuple):
                    return None
                base.setdefault(x[1], set()).add(x[2])
        out = set()
        for k, bits in base.items():
            if bits != set(range(L.nbits(S(dict(k)).hi))) or S(dict(k)).lo < 0:
                return None
            r = nulls(dict(k))
            if r is None:
                return None
            out |= r
        return out
    return {frozenset((L.pkey(q), L.pkey(L.pscale(q, -1))))}


def flat(c):
    if isinstance(c, Cond) and not c.neg:
        if c.op == 'BitAnd':
            a, b = flat(c.a), flat(c.b)
            return None if a is None or b is None else a | b
        if c.op == 'Eq':
            return nulls(L.padd(L.P(c.a), L.P(c.b), -1))
    return None


def G10(ctx):
    """scalar encodings and conversions"""
    cov(ctx)
    scalar_from_ints(ctx)
    scalar_decode(ctx)
    L.reset()
    eq_all(ctx, SCA + ' as PartialEq::eq', lambda: [r0(mk_sc(by_in('a'))), r0(mk_sc(by_in('b')))],
           lambda a: [L.padd(L.P(x), L.P(y), -1) for x, y in zip(sval(a[0]), sval(a[1]))])
    for nm in ('scalar', 'point'):
        io(ctx, nm)
        picks(ctx, nm)
    sizes(ctx)


def sizes(ctx):
    """announced lengths agree with the encodings"""
    for name in (SCA + ' as Marshaling::marshal_size', PT + ' as Marshaling::marshal_size', 'group::edwards25519::curve::Curve as Group::scalar_len', 'group::edwards25519::curve::Curve as Group::point_len',
                 'group::edwards25519::suite::SuiteEd25519 as Group::scalar_len', 'group::edwards25519::suite::SuiteEd25519 as Group::point_len'):
        U = exe(ctx, 'encoded-length', name, [r0(Str('x', {'v': [0] * 32, 'curve': Str('y', {})}))])
        if U:
            ctx.ob('encoded-length', name, U.ret == 32, 'announces %r bytes for an encoding of 32' % (U.ret,))


def io(ctx, nm):
    """the reader and writer forms move exactly the encoding"""
    pre = 'group::internal::marshalling::marshal::'
    adt, tr = (SCA, 'Scalar') if nm == 'scalar' else (PT, 'Point')
    enc = [L.inp('enc_' + nm, i, 0, 255) for i in range(32)]
    # writing
    name = adt + ' as Marshaling::marshal_to'
    if body(ctx, name) is not None:
        log = []

        def wr(U, a, t, dt):
            log.append(('write', [x for x in view(a[1]).items()]))
            return En('Ok', [[]]) if U.choose(2) == 0 else En('Err', [('io',)])

        def mb(U, a, t, dt):
            if deref(a[0]) is not tok:
                raise Unsupported('encodes something else')
            return En('Ok', [list(enc)]) if U.choose(2) == 0 else En('Err', [('enc',)])
        tok = ('self',)
        hooks = {'Write::write_all': wr, 'BinaryMarshaler::marshal_binary': mb, adt + ' as BinaryMarshaler::marshal_binary': mb}
        bad = None

        def mk():
            del log[:]
            runs.append(log_box := [])
            return [r0(tok), r0(('w',))]
        runs = []
        U = Unroll(ctx.P, hooks)
        b = ctx.P.find(name)
        try:
            def run(u):
                del log[:]
                r = u.exec(b, [r0(tok), r0(('w',))])
                return r, list(log)
            for r, pc in U.paths(run):
                if isinstance(r, Panic):
                    bad = 'can panic'
                    continue
                r, lg = r
                if r.var == 'Ok' and not (len(lg) == 1 and same(lg[0][1], enc)):
                    bad = 'reports success without having written exactly the encoding'
            oks = [r for r, pc in U.paths(run) if not isinstance(r, Panic) and r[0].var == 'Ok']
            errs = [r for r, pc in U.paths(run) if not isinstance(r, Panic) and r[0].var == 'Err']
            if len(oks) != 1 or len(errs) < 2:
                bad = bad or 'an error of the writer or of the encoding is not reported'
        except Unsupported as e:
            bad = 'cannot be followed: %s' % e
        ctx.fns |= U.fns
        ctx.ob('stream-form', name, bad is None, str(bad))
    name = adt + ' as Marshaling::unmarshal_from'
    if body(ctx, name) is not None:
        def rd(U, a, t, dt):
            v = view(a[1])
            if v.n != 32:
                raise Unsupported('reads %d bytes for an encoding of 32' % v.n)
            if U.choose(2) == 1:
                return En('Err', [('io',)])
            v.c[v.o:v.o + 32] = list(enc)
            return En('Ok', [[]])

        def ub(U, a, t, dt):
            log.append((deref(a[0]) is tok, [x for x in view(a[1]).items()]))
            return En('Ok', [[]]) if U.choose(2) == 0 else En('Err', [('dec',)])
        tok = ('self',)
        log = []
        hooks = {'Read::read_exact': rd, 'BinaryUnmarshaler::unmarshal_binary': ub, 'Marshaling::marshal_size': lambda U, a, t, dt: 32}
        bad = None
        U = Unroll(ctx.P, hooks)
        b = ctx.P.find(name)
        try:
            def run2(u):
                del log[:]
                r = u.exec(b, [r0(tok), r0(('r',))])
                return r, list(log)
            n = [0, 0]
            for r, pc in U.paths(run2):
                if isinstance(r, Panic):
                    bad = 'can panic'
                    continue
                r, lg = r
                n[r.var == 'Ok'] += 1
                if r.var == 'Ok' and not (len(lg) == 1 and lg[0][0] and same(lg[0][1], enc)):
                    bad = 'reports success without having decoded exactly the bytes read'
            if n != [2, 1]:
                bad = bad or 'an error of the reader or of the decoding is not reported'
        except Unsupported as e:
            bad = 'cannot be followed: %s' % e
        ctx.fns |= U.fns
        ctx.ob('stream-form', name, bad is None, str(bad))


def picks(ctx, nm):
    adt, tr = (SCA, 'Scalar') if nm == 'scalar' else (PT, 'Point')
    name = adt + ' as Marshaling::unmarshal_from_random'
    if body(ctx, name) is None:
        return
    tok, stm, new = ('self',), ('stream',), ('picked',)

    def pick(U, a, t, dt):
        if deref(a[1]) is not stm:
            raise Unsupported('draws from another stream')
        return new
    slot = Ref([tok], 0)
    U = exe(ctx, 'stream-form', name, [slot, r0(stm)], {'Scalar::pick': pick, 'Point::pick': pick, adt + ' as %s::pick' % tr: pick})
    if U:
        ctx.ob('stream-form', name, deref(slot) is new, 'does not store a freshly drawn value')


# ------------------------------------------------------------------ points as linear combinations
class Pt:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if v}

    def key(self):
        return ('pt',) + tuple(sorted((str(k), L.pkey(v)) for k, v in self.c.items()))

    def __repr__(self):
        return 'Pt(%s)' % {k: L.pshow(v, 3) for k, v in self.c.items()}


def pt(name, k=1):
    return Pt({name: L.pconst(k)})


def pcomb(a, b, k=1):
    r = dict(a.c)
    for n, q in b.c.items():
        r[n] = L.padd(r.get(n, {}), q, k)
    return Pt(r)


def pmulc(a, q):
    return Pt({n: L.pmul(v, q) for n, v in a.c.items()})


def numeric(v):
    return isinstance(v, Str) and 'x' in v and all(isinstance(v.get(f), list) and all(isinstance(x, int) for x in v[f]) for f in 'xyzt')


def affine(v):
    """affine coordinates of a constant extended element (None when it is not a consistent one)"""
    x, y, z, t = (F.value(v[f]) % p for f in 'xyzt')
    if z == 0:
        return None
    zi = pow(z, p - 2, p)
    a = (x * zi % p, y * zi % p)
    if (t - a[0] * a[1] % p * z) % p or (a[1] ** 2 - a[0] ** 2 - 1 - d * a[0] ** 2 * a[1] ** 2) % p:
        return None
    return a


def aspt(v):
    v = deref(v)
    if isinstance(v, Pt):
        return v
    if numeric(v):
        a = affine(v)
        if a == (0, 1):
            return Pt({})
        if a == BASEPT:
            return pt('B')
    raise Unsupported('curve point %s' % (type(v).__name__,))


class Points:
    """hooks for the curve formulas: the result is the linear combination they were shown to compute"""

    def __init__(self, ctx):
        self.ctx = ctx
        h = self.hooks = {}
        for k in (EXT, PRJ, PRE, CCH):
            h[k + '::zero'] = lambda U, a, t, dt: self.put(a[0], Pt({}))
        for k in (EXT, PRE, CCH):
            h[k + '::neg'] = lambda U, a, t, dt: self.put(a[0], pmulc(aspt(a[1]), {(): -1}))
        for k in (EXT, PRJ):
            h[k + '::double'] = lambda U, a, t, dt: self.put(a[1], pmulc(aspt(a[0]), {(): 2}))
        for k in (EXT + '::write_cached', EXT + '::write_projective', CMP + '::to_projective', CMP + '::to_extended'):
            h[k] = lambda U, a, t, dt: self.put(a[1], aspt(a[0]))
        for k, s in (('add', 1), ('mixed_add', 1), ('sub', -1), ('mixed_sub', -1)):
            h[CMP + '::' + k] = lambda U, a, t, dt, s=s: self.put(a[0], pcomb(aspt(a[1]), aspt(a[2]), s))
        self.encs = {}

    def put(self, r, v):
        if not isinstance(r, Ref):
            raise Unsupported('destination of a point operation')
        r.set(v)
        return []

    def encode(self, U, a, t, dt):
        q = aspt(a[0])
        k = q.key()
        self.encs.setdefault(k, q)
        v = view(a[1])
        for i in range(32):
            v.c[v.o + i] = L.inp(('enc', k), i, 0, 255)
        return []


def selector(ctx, sig):
    """the function of ge.rs with this signature"""
    out = []
    for n, l in ctx.P.by_clean.items():
        if n.startswith(GE) and len(l) == 1 and '{closure' not in n and l[0].kind != 'Closure':
            b = l[0]
            t = [b.locals[i + 1]['ty'] for i in range(b.argc)]
            if t == sig:
                out.append(b)
    return out


SEL_C = ['&mut ' + CCH, '&[%s; 8]' % CCH, 'i32']
SEL_P = ['&mut ' + PRE, 'usize', 'i32']


def select_tables(ctx):
    """the constant-time table look-ups, for every digit"""
    for b in selector(ctx, SEL_C):
        name = b.clean
        for k in range(-8, 9):
            fd = F.Field()
            out = r0(old(CCH))
            U = run_ge(ctx, 'select', name, [out, r0([mk_cch(i + 1) for i in range(8)]), k], fd)
            if U is None:
                return
            x, y = ({}, F.con(1)) if k == 0 else (V('x%d' % abs(k)), V('y%d' % abs(k)))
            points_equal(ctx, 'select', '%s digit %d' % (name, k), out, F.add({}, x, -1) if k < 0 else x, y, CCH, tuple(range(1, 9)))
    sel = selector(ctx, SEL_P)
    for b in sel:
        name = b.clean
        base = BASEPT
        for pos in range(32):
            mult = [(0, 1)]
            for i in range(8):
                mult.append(padd(mult[-1], base))
            bad = None
            for k in range(-8, 9):
                fd = F.Field()
                out = r0(old(PRE))
                U = Unroll(ctx.P, fd.hooks)
                try:
                    U.begin()
                    U.exec(b, [out, pos, k])
                    if U.taken:
                        raise Unsupported('control flow depends on the digit')
                    x, y = mult[abs(k)]
                    if k < 0:
                        x = (p - x) % p
                    for f, w in (('y_plus_x', y + x), ('y_minus_x', y - x), ('xy2d', 2 * d * x * y)):
                        g = getf(out, f)
                        if g.p != F.con(w):
                            bad = 'digit %d: field %s is not that of the multiple of the base point' % (k, f)
                        elif g.b > 2 * F.OUTB:
                            bad = 'digit %d: field %s is not reduced' % (k, f)
                except (Unsupported, Panic) as e:
                    bad = 'digit %d: %s' % (k, e)
                ctx.fns |= U.fns
                ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
            ctx.ob('select', '%s position %d' % (name, pos), bad is None, str(bad))
            for i in range(8):
                base = padd(base, base)      # times 2^8
    return True


def scalar_mult(ctx):
    """digits recombine to the scalar, every multiple is of the given point"""
    for fn, sig in (('ge_scalar_mult', SEL_C), ('ge_scalar_mult_base', SEL_P)):
        name = GE + fn
        if body(ctx, name) is None:
            continue
        sel = selector(ctx, sig)
        if not sel:
            ctx.bad('scalar-multiplication', name, 'no table look-up with the expected signature')
            continue
        L.reset()
        D = Points(ctx)
        probs = []

        def digit(U, b):
            if isinstance(b, int):
                lo = hi = b
            else:
                lo, hi = b.lo, b.hi
            if lo < -8 or hi > 8:
                probs.append('a digit may range over %d..%d but the tables hold the multiples up to 8' % (lo, hi))

        def pick_c(U, a, t, dt):
            tab = view(a[1]).items()
            p0 = aspt(tab[0])
            for i, q in enumerate(tab):
                if aspt(q).key() != pmulc(p0, {(): i + 1}).key():
                    probs.append('table entry %d is not %d times the point' % (i, i + 1))
            digit(U, a[2])
            return D.put(a[0], pmulc(p0, L.P(a[2])))

        def pick_p(U, a, t, dt):
            if not isinstance(a[1], int) or not 0 <= a[1] < 32:
                raise Unsupported('table position')
            digit(U, a[2])
            return D.put(a[0], pmulc(pt('B'), L.pscale(L.P(a[2]), 256 ** a[1])))
        for b in sel:
            D.hooks[b.clean] = pick_c if sig is SEL_C else pick_p
        a = [L.inp('a', i, 0, 127 if i == 31 else 255) for i in range(32)]
        out = r0(Pt({'old': {(): 1}}))
        args = [out, r0(list(a))] + ([r0(pt('A'))] if sig is SEL_C else [])
        U = exe(ctx, 'scalar-multiplication', name, args, D.hooks)
        if U is None:
            continue
        no_overflow(ctx, name, U)
        ctx.ob('scalar-digits', name, not probs, str(probs[:1]))
        q = deref(out)
        want = num(a)
        sym = 'A' if sig is SEL_C else 'B'
        if not isinstance(q, Pt):
            ctx.bad('scalar-multiplication', name, 'does not leave a point in its destination')
            continue
        left = {}
        for n, c in q.c.items():
            t = L.telescope(L.padd(c, want, -1) if n == sym else c)
            if t:
                left[n] = t
        if sym not in q.c:
            left[sym] = want
        ctx.ob('scalar-multiplication', name, not left, 'the multiples that are added do not amount to the scalar times the point: %s' % (left and why(next(iter(left.values())))))


def mk_pt(name, vt=False):
    return Str(PT, {'ge': pt(name) if name else Pt({}), 'var_time': vt})


def point_ops(ctx):
    """the operations of the point type"""
    A, C = {(): 1}, {(): 1}
    cases = (('add', 2, {'A': 1, 'C': 1}), ('sub', 2, {'A': 1, 'C': -1}), ('neg', 1, {'A': -1}), ('set', 1, {'A': 1}), ('null', 0, {}), ('base', 0, {'B': 1}))
    for fn, n, want in cases:
        name = PT + ' as Point::' + fn
        b = body(ctx, name)
        if b is None:
            continue
        L.reset()
        D = Points(ctx)
        ref = b.locals[1]['ty'].startswith('&')
        s = r0(mk_pt('old'))
        args = [s if ref else deref(s)] + [r0(mk_pt('AC'[i])) for i in range(n)]
        U = exe(ctx, 'point-operation', name, args, D.hooks)
        if U is None:
            continue
        for lab, v in (('result', U.ret),) + ((('receiver', deref(s)),) if ref else ()):
            try:
                got = aspt(deref(v)['ge'])
                ok = got.key() == Pt({k: {(): c} for k, c in want.items()}).key()
            except (Unsupported, KeyError, TypeError):
                ok = False
            ctx.ob('point-operation', '%s %s' % (name, lab), ok, 'is not the point it stands for')
    # multiplication
    name = PT + ' as Point::mul'
    if body(ctx, name) is None:
        return
    for lab, top in (('below 2^255', (0, 127)), ('from 2^255', (128, 255))):
        for base in (False, True):
            B.reset()
            D = Points(ctx)
            Sc = Scalars(ctx.P)
            probs = []
            raw = [L.inp('s', i, 0 if i < 31 else top[0], 255 if i < 31 else top[1]) for i in range(32)]
            Sc.val['s'] = {(('s', 1),): 1}

            def check(bs):
                bs = view(bs).items()
                if top[0] == 0:
                    if not same(bs, raw):
                        probs.append('multiplies by something else than the scalar')
                    return
                if L.R(bs[31])[1] > 127:
                    probs.append('hands a scalar at or above 2^255 to a routine that drops its top digit')
                elif Sc.of(Sl(bs, 0, 32)) != {(('s', 1),): 1}:
                    probs.append('multiplies by something else than the scalar modulo the group order')

            def gm(U, a, t, dt):
                check(a[1])
                return D.put(a[0], Pt({('s', k): v for k, v in aspt(a[2]).c.items()}))

            def gb(U, a, t, dt):
                check(a[1])
                return D.put(a[0], Pt({('s', 'B'): {(): 1}}))
            hooks = dict(D.hooks)
            hooks.update(Sc.hooks)
            hooks[GE + 'ge_scalar_mult'] = gm
            hooks[GE + 'ge_scalar_mult_base'] = gb
            arg = NONE if base else some(r0(mk_pt('A')))
            con = '%s %s of %s' % (name, lab, 'the base point' if base else 'a point')
            U = branches(ctx, 'point-multiplication', name, lambda: [mk_pt('old'), r0(mk_sc(raw)), arg], hooks)
            if U is None:
                continue
            for r, a, pc in U.res:
                if isinstance(r, Panic):
                    probs.append('can panic: %s' % r)
                    continue
                try:
                    got = aspt(deref(r)['ge'])
                except (Unsupported, KeyError, TypeError):
                    got = None
                if got is None or got.key() != Pt({('s', 'B' if base else 'A'): {(): 1}}).key():
                    probs.append('the result is not the multiple of the %s' % ('base point' if base else 'given point'))
            ctx.ob('point-multiplication', con, not probs and bool(U.res), str(probs[:1]))
    # the variable-time routine stays unreachable: nobody sets the flag
    for b in ctx.P.bodies.values():
        if b.promoted if hasattr(b, 'promoted') else False:
            continue
        for i, blk in enumerate(b.blocks):
            for st in blk['st']:
                if st.get('s') != '=':
                    continue
                v = st['v']
                dd = st['d']
                if dd[1] and dd[1][-1][0] == 'f' and len(dd[1][-1]) > 2 and dd[1][-1][2] == 'var_time':
                    ctx.ob('fixed-time', '%s:%s' % (b.clean, st.get('l')), is_false(v), 'switches a point to variable-time multiplication')


def is_false(v):
    return v.get('r') == 'use' and v['o'].get('k') == 'const' and v['o'].get('v') in ('0', 'false')


# ------------------------------------------------------------------ encodings of points
def c_move(fd):
    def h(U, a, t, dt):
        sel = a[2]
        if isinstance(sel, (int, bool)):
            on = bool(sel)
        else:
            lo, hi = L.R(sel)
            if lo < 0 or hi > 1:
                raise Unsupported('selector of a conditional move')
            on = U.truth(U.compare('Eq', sel, 1))
        if on:
            a[0].set(F.fel(a[1]))
        return []
    fd.hooks[FE + 'fe_c_move'] = h


def cond_ev(c, env):
    if c.op == 'Eq':
        return L.ev(L.P(c.a), env) == L.ev(L.P(c.b), env)
    if c.op == 'Lt':
        return L.ev(L.P(c.a), env) < L.ev(L.P(c.b), env)
    if c.op in ('BitAnd', 'BitOr', 'BitXor'):
        a, b = (cond_ev(x, env) != x.neg if isinstance(x, Cond) else bool(x) for x in (c.a, c.b))
        return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[c.op]
    raise Unsupported('condition %s' % c.op)


def envs(pc, doms):
    """assignments of the inputs in doms that follow this path"""
    import itertools
    names = list(doms)
    for vs in itertools.product(*[doms[n] for n in names]):
        env = dict(zip(names, vs))
        if all(cond_ev(c, env) == t for c, t in pc):
            yield env


def multiple_of(q, w):
    """is q = c w for a field constant c"""
    if not w:
        return not q
    m = next(iter(w))
    c = q.get(m, 0) * pow(w[m], p - 2, p) % p
    return F.add(q, F.mul(F.con(c), w), -1) == {}


def G01(ctx):
    """encoding and decoding of points"""
    cov(ctx)
    ext_encode(ctx)
    ext_decode(ctx)
    point_codec(ctx)


def ext_encode(ctx):
    name = EXT + '::write_bytes'
    if body(ctx, name) is None:
        return
    L.reset()
    fd = F.Field()
    c_move(fd)
    out = [L.inp('junk', i, 0, 255) for i in range(32)]
    U = exe(ctx, 'point-encode', name, [r0(mk_ext(1)), r0(out)], fd.hooks)
    if U is None:
        return
    ctx.ob('field-precondition', name, not fd.problems, str(fd.problems[:1]))
    enc_of(ctx, name, fd, out, V('x1'), V('y1'))


def enc_of(ctx, name, fd, out, x, y):
    iy = fd.enc.get(frozenset(y.items()))
    ix = fd.enc.get(frozenset(x.items()))
    nx = fd.enc.get(frozenset(F.add({}, x, -1).items()))
    if iy is None or ix is None and nx is None:
        ctx.bad('point-encode', name, 'the affine y coordinate is not encoded or the sign of x is not taken')
        return
    bad = None
    import itertools
    for v, sg in itertools.product((0, 1, 85, 127), (0, 1)):
        env = {('enc%d' % iy, j): v for j in range(32)}
        env[('sgn', ix if ix is not None else nx)] = sg if ix is not None else 1 - sg
        for j in range(32):
            try:
                got = L.ev(L.P(out[j]), env)
            except L.Unknown as e:
                got = None
            if got != v + (128 * sg if j == 31 else 0):
                bad = 'byte %d is not that of y with the sign of x in the top bit' % j
    ctx.ob('point-encode', name, bad is None, str(bad))


def ext_decode(ctx):
    name = EXT + '::set_bytes'
    b = body(ctx, name)
    if b is None:
        return
    for n in (0, 1, 31, 33, 64):
        L.reset()
        fd = F.Field()
        U = branches(ctx, 'point-decode', name, lambda: [r0(old(EXT)), Sl([L.inp('s', i, 0, 255) for i in range(n)], 0, n)], fd.hooks)
        if U is None:
            return
        bad = [r for r, a, pc in U.res if r is not False]
        ctx.ob('point-decode', '%s (%d bytes)' % (name, n), not bad, 'a wrong length panics or is accepted')
    L.reset()
    fd = F.Field()
    c_move(fd)
    U = branches(ctx, 'point-decode', name, lambda: [r0(old(EXT)), Sl([L.inp('s', i, 0, 255) for i in range(32)], 0, 32)], fd.hooks)
    if U is None:
        return
    ctx.ob('field-precondition', name, not fd.problems, str(fd.problems[:1]))
    ydec = [n for (k, _), n in fd.names.items() if k == 'dec']
    if len(ydec) != 1:
        ctx.bad('point-decode', name, 'does not decode one field element from the 32 bytes')
        return
    y = V(ydec[0])
    u = F.add(F.mul(y, y), F.con(1), -1)
    v = F.add(F.prod(F.con(d), y, y), F.con(1))
    v3 = F.prod(v, v, v)
    uv7 = F.prod(u, v3, v3, v)
    cand = None
    for n, q in fd.pows.items():
        if n.startswith('pow22523') and q == uv7:
            cand = F.prod(u, v3, V(n))
    doms = {}
    for i in range(len(fd.enc)):
        doms[('nz', i)] = (0, 1)
        doms[('sgn', i)] = (0, 1)
    used = set()
    for r, a, pc in U.res:
        for c, t in pc:
            for x in (c.a, c.b):
                used |= base_atoms(L.P(x))
    doms = {k: w for k, w in doms.items() if k in used}
    doms[('s', 31)] = (0, 127, 128, 255)
    probs = []
    n = 0
    for r, a, pc in U.res:
        if isinstance(r, Panic):
            probs.append('can panic: %s' % r)
            continue
        try:
            es = list(envs(pc, doms))
        except (L.Unknown, Unsupported) as e:
            probs.append('a condition of the decoder cannot be interpreted (%s)' % e)
            continue
        for env in es:
            n += 1
            zero = [fd.poly(i) for (k, i), w in env.items() if k == 'nz' and w == 0]
            nonz = [fd.poly(i) for (k, i), w in env.items() if k == 'nz' and w == 1]
            if r is True or isinstance(r, int) and r == 1:
                g = deref(a[0])
                X, Y, Z, T = (F.fel(g[f]).p for f in 'xyzt')
                if Z != F.con(1) or Y != y:
                    probs.append('an accepted encoding does not give the decoded y coordinate over 1')
                if F.add(T, F.mul(X, Y), -1):
                    probs.append('the t coordinate of an accepted point is not x y')
                eqn = F.add(F.prod(v, X, X), u, -1)
                if eqn and not any(multiple_of(eqn, z) for z in zero):
                    probs.append('a point that is not on the curve can be accepted')
                k = fd.enc.get(frozenset(X.items()))
                nk = fd.enc.get(frozenset(F.add({}, X, -1).items()))
                sg = env.get(('sgn', k)) if k is not None else None
                if sg is None and nk is not None and ('sgn', nk) in env:
                    sg = 1 - env[('sgn', nk)]
                if sg is None:
                    probs.append('the sign of x is not settled')
                elif sg != env[('s', 31)] >> 7:
                    probs.append('the sign of x does not follow the top bit of the encoding')
                wb = max(F.fel(g[f]).b for f in 'xyzt')
                if wb > F.OUTB + 1e-9:
                    probs.append('the coordinates of a decoded point are not reduced')
            elif r is False:
                ok = cand is not None
                if ok:
                    for k in (1, -1):
                        w = F.add(F.prod(v, cand, cand), u, k)
                        ok = ok and any(multiple_of(w, z) for z in nonz)
                if not ok:
                    probs.append('an encoding of a point on the curve can be refused')
            else:
                probs.append('undecided outcome')
    ctx.cov['decoder_cases'] = ctx.cov.get('decoder_cases', 0) + n
    ctx.ob('point-decode', name, not probs and n >= 4, str(probs[:1]) if probs else 'no case was followed')


def base_atoms(q, seen=None):
    """names of the inputs a polynomial depends on"""
    out = set()
    for i in L.atoms_of(q):
        k, dd = L.ATOMS[i][:2]
        if k == 'in':
            out.add(dd)
        elif k in ('fld', 'q', 'sx'):
            out |= base_atoms(dict(dd[0]))
        elif k in ('xor', 'or', 'and'):
            for z in dd:
                out |= base_atoms(dict(z))
        elif k == 'orb':
            for z in dd:
                if isinstance(z, tuple):
                    out |= base_atoms(dict(z[1]))
    return out


def ge_tok(pt_):
    """the group element inside a Point value"""
    return pt_


def point_codec(ctx):
    """the Point type over the element encodings"""
    D = Points(ctx)
    hooks = dict(D.hooks)
    hooks[EXT + '::write_bytes'] = D.encode
    # encoding
    name = PT + ' as BinaryMarshaler::marshal_binary'
    L.reset()
    U = exe(ctx, 'point-encode', name, [r0(mk_pt('A'))], hooks)
    if U:
        r = U.ret
        ok = isinstance(r, En) and r.var == 'Ok' and isinstance(r.f[0], list) and same_len(r.f[0], [L.inp(('enc', pt('A').key()), i, 0, 255) for i in range(32)])
        ctx.ob('point-encode', name, ok, 'is not the encoding of the element')
    # decoding
    name = PT + ' as BinaryUnmarshaler::unmarshal_binary'
    if body(ctx, name) is not None:
        L.reset()
        seen = []

        def setb(U, a, t, dt):
            seen.append(view(a[1]).items())
            if U.choose(2) == 0:
                a[0].set(pt('decoded'))
                return True
            a[0].set(pt('garbage'))
            return False
        h2 = dict(hooks)
        h2[EXT + '::set_bytes'] = setb
        for n in (0, 31, 32, 33):
            data = [L.inp('s', i, 0, 255) for i in range(n)]
            U = branches(ctx, 'point-decode', name, lambda: [r0(mk_pt('old')), Sl(list(data), 0, n)], h2)
            if U is None:
                return
            bad = None
            oks = 0
            for r, a, pc in U.res:
                if isinstance(r, Panic):
                    bad = 'can panic'
                elif r.var == 'Ok':
                    oks += 1
                    g = deref(a[0])['ge']
                    if not isinstance(g, Pt) or g.key() != pt('decoded').key():
                        bad = 'reports success although the element was refused'
                elif r.var == 'Err' and len(U.res) < 2 and n == 32:
                    bad = 'refuses every encoding'
            if any(not same_len(s, data) for s in seen):
                bad = 'decodes something else than the given bytes'
            del seen[:]
            ctx.ob('point-decode', '%s (%d bytes)' % (name, n), bad is None and (n != 32 or oks == 1), str(bad or 'a valid encoding is not accepted'))
    # equality is that of the encodings
    L.reset()
    eq_all(ctx, PT + ' as PartialEq::eq', lambda: [r0(mk_pt('A')), r0(mk_pt('C'))],
           lambda a: [L.padd(L.P(L.inp(('enc', pt('A').key()), i, 0, 255)), L.P(L.inp(('enc', pt('C').key()), i, 0, 255)), -1) for i in range(32)], hooks)
    # hashing depends on nothing but the encoding
    for adt, mk, enc in ((PT, lambda: mk_pt('A'), lambda: [L.inp(('enc', pt('A').key()), i, 0, 255) for i in range(32)]), (SCA, lambda: mk_sc(by_in('a')), lambda: by_in('a'))):
        name = adt + ' as Hash::hash'
        if not ctx.P.by_clean.get(name):
            continue
        L.reset()
        fed = []

        def hh(U, a, t, dt):
            v = deref(a[0])
            if isinstance(v, Sl):
                v = v.items()
            if not isinstance(v, list):
                raise Unsupported('hashing of %r' % (v,))
            fed.append(v)
            return []
        h3 = dict(hooks)
        for k in ('Hash::hash', 'Hash::hash_slice'):
            h3[k] = hh
        for k in ('Hasher::write', 'Hasher::write_u8'):
            h3[k] = lambda U, a, t, dt: hh(U, [a[1] if not is_num(a[1]) else [a[1]]], t, dt)
        U = exe(ctx, 'hash', name, [r0(mk()), r0(('state',))], h3)
        if U:
            e = {L.pkey(L.P(x)) for x in enc()}
            okh = bool(fed) and all(isinstance(x, (int, S)) and (isinstance(x, int) or L.pkey(x.poly) in e) for v in fed for x in v) and e <= {L.pkey(x.poly) for v in fed for x in v if isinstance(x, S)}
            ctx.ob('hash', name, okh, 'is not computed from exactly the encoding that equality compares')


def same_len(v, w):
    return len(v) == len(w) and all(isinstance(x, (int, S)) for x in v) and same(v, w)


# ------------------------------------------------------------------ canonical encodings and small order
def cells(refs, lo=0, hi=255):
    """partition of lo..hi at the reference values"""
    out = []
    i = lo
    for r in sorted(set(r for r in refs if lo <= r <= hi)):
        if i < r:
            out.append((i, r - 1))
        out.append((r, r))
        i = r + 1
    if i <= hi:
        out.append((i, hi))
    return out


def lex_tree(refs, tops):
    """cells of 32 byte strings (most significant byte last), fine enough to compare with every reference: (cell, index set)

    a cell fixes the bytes from the top down to where the last reference leaves; refs are lists of 32 bytes whose last byte is < 128"""
    out = []

    def go(i, pre, alive):
        if i < 0 or not alive:
            out.append([(0, 255)] * (i + 1) + pre[::-1])
            return
        for lo, hi in cells([refs[k][i] for k in alive]):
            go(i - 1, pre + [(lo, hi)], [k for k in alive if lo == hi == refs[k][i]])
    for base, width in tops:
        for lo, hi in cells([base + r[31] for r in refs if r[31] < width], base, base + width - 1):
            go(30, [(lo, hi)], [k for k, r in enumerate(refs) if lo == hi == base + r[31]])
    return out


def decide(ctx, rule, name, cellist, mk, want, hooks=None):
    """the predicate on every cell"""
    b = body(ctx, name)
    if b is None:
        return
    bad = None
    U = Unroll(ctx.P, hooks)
    for cell in cellist:
        w = want(cell)
        L.reset()
        by = [lo if lo == hi else L.inp('s', i, lo, hi) for i, (lo, hi) in enumerate(cell)]
        try:
            for r, pc in U.paths(lambda u: u.exec(b, mk(by))):
                if isinstance(r, Panic):
                    bad = 'can panic: %s' % r
                elif r is not w:
                    bad = 'says %s for encodings with bytes %s' % (r if isinstance(r, bool) else 'either', show_cell(cell))
        except Unsupported as e:
            bad = 'cannot be followed: %s (near %s)' % (e, U.where)
        if bad:
            break
    ctx.fns |= U.fns
    ctx.cov['byte_cells'] = ctx.cov.get('byte_cells', 0) + len(cellist)
    ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
    ctx.ob(rule, name, bad is None, str(bad))


def show_cell(cell):
    return ' '.join(('%02x' % lo if lo == hi else '%02x-%02x' % (lo, hi)) for lo, hi in cell[::-1][:6]) + '.. (most significant first)'


def bounds(cell, top=255):
    lo = sum((c[0] & (top if i == 31 else 255)) << 8 * i for i, c in enumerate(cell))
    hi = sum((c[1] & (top if i == 31 else 255)) << 8 * i for i, c in enumerate(cell))
    return lo, hi


def le32(v):
    return list(v.to_bytes(32, 'little'))


def below(cell, n, top):
    lo, hi = bounds(cell, top)
    if hi < n:
        return True
    if lo >= n:
        return False
    raise AssertionError('cell not fine enough')


def G09(ctx):
    """canonical encodings, small order"""
    cov(ctx)
    tok = lambda: mk_pt('A')
    for name, mkself, ref, tops, top in ((PT + ' as PointCanCheckCanonicalAndSmallOrder::is_canonical', tok, p, ((0, 128), (128, 128)), 127),
                                         (SCA + ' as ScalarCanCheckCanonical::is_canonical', lambda: mk_sc(by_in('a')), Lord, ((0, 256),), 255)):
        if body(ctx, name) is None:
            continue
        cl = lex_tree([le32(ref), le32(ref - 1)], tops)
        decide(ctx, 'canonical', name, cl, lambda by: [r0(mkself()), Sl(list(by), 0, 32)], lambda c: below(c, ref, top))
        for n in (0, 1, 31, 33, 64):
            U = branches(ctx, 'canonical', name, lambda: [r0(mkself()), Sl([L.inp('d', i, 0, 255) for i in range(n)], 0, n)])
            if U is None:
                break
            ctx.ob('canonical', '%s (%d bytes)' % (name, n), all(r is False for r, a, pc in U.res), 'accepts an encoding of the wrong length or panics on it')
    name = PT + ' as PointCanCheckCanonicalAndSmallOrder::has_small_order'
    keys = [le32(y) for y in sorted(small_order_y())]
    cl = lex_tree(keys, ((0, 128), (128, 128)))
    cur = {}

    def enc(U, a, t, dt):
        v = view(a[1])
        v.c[v.o:v.o + 32] = list(cur['by'])
        return []

    def mk(by):
        cur['by'] = by
        return [r0(mk_pt('A'))]

    def want(c):
        lo, hi = bounds(c, 127)
        if lo == hi:
            return lo in small_order_y()
        if any(lo <= y <= hi for y in small_order_y()):
            raise AssertionError('cell not fine enough')
        return False
    decide(ctx, 'small-order', name, cl, mk, want, {EXT + '::write_bytes': enc})


# ------------------------------------------------------------------ constants
def lazy(ctx, n):
    b = ctx.P.find(CONST + n + ' as Deref::deref')
    U = Unroll(ctx.P)
    U.begin()
    if b is None:
        if CONST + n not in ctx.P.consts or U.lazy_body(CONST + n, '&' + ctx.P.consts[CONST + n]['ty']) is None:
            return None
        r = U.lazy(CONST + n)
        ctx.fns |= U.fns
        return r
    r = deref(U.exec(b, [r0(('static', n))]))
    ctx.fns |= U.fns
    return r


def G02(ctx):
    """curve constants"""
    cov(ctx)
    U = Unroll(ctx.P)

    def item(n):
        k = CONST + n
        if k not in ctx.P.consts:
            return None
        return U.item(k, '')

    def check(n, f, what):
        try:
            v = item(n) if n not in LAZY else lazy(ctx, n)
            if v is None:
                return
            ctx.ob('constant', CONST + n, bool(f(v)), 'is not %s' % what)
        except (Unsupported, Panic, TypeError, KeyError) as e:
            ctx.bad('constant', CONST + n, 'cannot be evaluated: %s' % e)

    LAZY = ('PRIME', 'PRIME_ORDER', 'L_MINUS2', 'COFACTOR', 'FULL_ORDER', 'PRIME_ORDER_SCALAR', 'COFACTOR_SCALAR', 'NULL_POINT')
    fits = lambda v: len(v) == 10 and all(abs(x) <= 1.1 * 2 ** (25 - i % 2) for i, x in enumerate(v))
    i = F.value
    check('SQRT_M1', lambda v: fits(v) and i(v) ** 2 % p == p - 1, 'a reduced square root of -1')
    check('D', lambda v: fits(v) and i(v) % p == d, 'the reduced curve parameter -121665/121666')
    check('D2', lambda v: fits(v) and i(v) % p == 2 * d % p, 'twice the curve parameter, reduced')
    check('BASEEXT', lambda v: affine(v) == BASEPT and all(fits(v[f]) for f in 'xyzt'), 'the base point')
    check('WEAK_KEYS', lambda v: {int.from_bytes(bytes(k), 'little') for k in v} == small_order_y(), 'the list of y coordinates of the points of small order')
    check('PRIME', lambda v: v.v == p, '2^255-19')
    check('PRIME_ORDER', lambda v: v.v == Lord, 'the order of the prime-order subgroup')
    check('L_MINUS2', lambda v: v.v == Lord - 2, 'the order of the prime-order subgroup minus 2')
    check('COFACTOR', lambda v: v.v == 8, '8')
    check('FULL_ORDER', lambda v: v.v == 8 * Lord, 'the order of the whole group')
    check('PRIME_ORDER_SCALAR', lambda v: int.from_bytes(bytes(sval(v)), 'little') == Lord, 'the order of the prime-order subgroup as a scalar')
    check('COFACTOR_SCALAR', lambda v: int.from_bytes(bytes(sval(v)), 'little') == 8, '8 as a scalar')
    check('NULL_POINT', lambda v: affine(v['ge']) == (0, 1) and v['var_time'] is False, 'the neutral element')


# ------------------------------------------------------------------ integers modulo an arbitrary modulus
def mk_int(name, bo='LittleEndian', m=None):
    m = m or B.modulus()
    if name is None:
        return Str(INTT, {'v': B.symbol('anything', None, None), 'm': m, 'bo': En(bo, [], INTT.replace('Int', 'ByteOrder'))})
    return Str(INTT, {'v': B.symbol(name, (0, 0), B.badd(B.of(m).hi, (0, -1))), 'm': m, 'bo': En(bo, [], INTT.replace('Int', 'ByteOrder'))})


def int_result(ctx, rule, name, U, want, mod=None, lab='', keepm=True):
    bad = None
    for (r, a, pc), facts in zip(U.res, U.pfacts):
        mod_ = B.of(mod) if mod is not None else B.modulus()
        if isinstance(r, Panic):
            bad = 'can panic: %s' % r
            break
        r = deref(r)
        v = B.of(r.get('v')) if isinstance(r, Str) else None
        m = B.of(r.get('m')) if isinstance(r, Str) else None
        if v is None or m is None:
            bad = 'does not give an integer with its modulus'
            break
        if keepm and L.pkey(m.poly) != L.pkey(mod_.poly):
            bad = 'the result does not carry the modulus of its operand'
            break
        if not v.within((0, 0), B.badd(mod_.hi, (0, -1))):
            bad = 'the result may lie outside 0 .. m-1 (%s .. %s)' % (v.lo, v.hi)
            break
        w = want(a)
        q = B.congruent(assume(v.poly, facts), assume(w, facts), mod_)
        if q:
            q = B.congruent(assume(q, facts), {}, mod_)
        if q:
            bad = 'the result is not congruent to the value it stands for: %s' % why(q)
            break
    ctx.ob(rule, name + lab, bad is None and bool(U.res), str(bad))
    ctx.cov['cases_split'] = ctx.cov.get('cases_split', 0) + len(U.res)


def G07(ctx):
    """integers modulo an arbitrary modulus"""
    cov(ctx)
    sc = INTT + ' as Scalar::'
    vp = lambda x: B.of(deref(x)['v']).poly
    for trait, f in (('Add::add', L.padd), ('Mul::mul', L.pmul)):
        l = ctx.P.by_clean.get(INTT + ' as ' + trait) or []
        ctx.ob('integer-impls', INTT + ' ' + trait, bool(l), 'no implementation of the operator')
        for i, b in enumerate(l):
            B.reset()
            refs = [b.locals[j + 1]['ty'].startswith('&') for j in range(2)]
            U = branches_b(ctx, 'integer-value', b, lambda: [r0(x) if r else x for x, r in zip((mk_int('a'), mk_int('b')), refs)])
            if U:
                int_result(ctx, 'integer-value', '%s as %s' % (INTT, trait), U, lambda a, f=f: f(SYM('a'), SYM('b')), lab=' #%d' % i)
    i64 = lambda: L.inp('i', 0, -2 ** 63, 2 ** 63 - 1)
    u64 = lambda: L.inp('i', 0, 0, 2 ** 64 - 1)
    any_ = lambda n='n': B.symbol(n, None, None)
    inv = lambda n: {((L.atom('inv', (L.pkey(SYM(n)), L.pkey(B.modulus().poly)), 0, 1 << 4096), 1),): 1}
    cases = [(sc + 'sub', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a')), r0(mk_int('b'))], lambda a: L.padd(SYM('a'), SYM('b'), -1)),
             (sc + 'neg', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a'))], lambda a: L.pscale(SYM('a'), -1)),
             (sc + 'inv', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a'))], lambda a: inv('a')),
             (sc + 'div', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a')), r0(mk_int('b'))], lambda a: L.pmul(SYM('a'), inv('b'))),
             (sc + 'set', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a'))], lambda a: SYM('a')),
             (sc + 'zero', lambda: [mk_int(None)], lambda a: {}),
             (sc + 'one', lambda: [mk_int(None)], lambda a: {(): 1}),
             (sc + 'set_int64', lambda: [mk_int(None), i64()], lambda a: a[1].poly),
             (INTT + '::set_uint64', lambda: [r0(mk_int(None)), u64()], lambda a: a[1].poly),
             (INTT + '::init64', lambda: [mk_int(None, m=any_('oldm')), i64(), B.modulus()], lambda a: a[1].poly),
             (INTT + '::new_int64', lambda: [i64(), B.modulus()], lambda a: a[0].poly),
             (INTT + '::new_int', lambda: [any_(), B.modulus()], lambda a: SYM('n')),
             (INTT + '::exp', lambda: [mk_int(None, m=any_('oldm')), r0(mk_int('a')), r0(any_('e'))],
              lambda a: {((L.atom('pow', (L.pkey(SYM('a')), L.pkey(SYM('e')), L.pkey(B.modulus().poly)), 0, 1 << 4096), 1),): 1})]

    def rnd(U, a, t, dt):
        m = B.of(deref(a[0]))
        if L.pkey(m.poly) != L.pkey(B.modulus().poly):
            raise Unsupported('draws below something else than the modulus')
        return B.symbol('rnd', (0, 0), B.badd(m.hi, (0, -1)))
    cases.append((sc + 'pick', lambda: [mk_int(None), r0(('stream',))], lambda a: SYM('rnd')))
    for name, mk, want in cases:
        B.reset()
        U = branches(ctx, 'integer-value', name, mk, {'util::random::random_stream::random_int': rnd})
        if U:
            int_result(ctx, 'integer-value', name, U, want)
    for name, mk in ((sc + 'set_bytes', lambda n, bo: [mk_int(None, bo), bytes_in(n)]),
                     (INTT + '::init_bytes', lambda n, bo: [mk_int(None, m=any_('oldm')), bytes_in(n), r0(B.modulus()), En(bo, [], INTT.replace('Int', 'ByteOrder'))]),
                     (INTT + '::new_int_bytes', lambda n, bo: [bytes_in(n), r0(B.modulus()), En(bo, [], INTT.replace('Int', 'ByteOrder'))])):
        for bo in ('LittleEndian', 'BigEndian'):
            for n in (0, 1, 2, 5, 32, 64):
                B.reset()
                U = branches(ctx, 'integer-bytes', name, lambda: mk(n, bo))
                if U is None:
                    break
                int_result(ctx, 'integer-bytes', name, U, lambda a: num([L.inp('d', i, 0, 255) for i in (range(n) if bo == 'LittleEndian' else range(n - 1, -1, -1))]), lab=' %s %d bytes' % (bo, n))
    int_codec(ctx)
    int_pads(ctx)
    # equality
    for name in (INTT + ' as PartialEq::eq', INTT + '::equal'):
        B.reset()
        U = branches(ctx, 'equality', name, lambda: [r0(mk_int('a')), r0(mk_int('b'))])
        if U:
            dd = L.pkey(L.padd(SYM('a'), SYM('b'), -1)), L.pkey(L.padd(SYM('b'), SYM('a'), -1))
            bad = not U.res or any(isinstance(r, Panic) or bool(r) != any(k == 'zero' and L.pkey(q) in dd for k, q in f) for (r, a, pc), f in zip(U.res, U.pfacts))
            ctx.ob('equality', name, not bad, 'does not hold exactly for equal values')


def SYM(n):
    return B.symbol(n, None, None).poly


def bytes_in(n):
    return Sl([L.inp('d', i, 0, 255) for i in range(n)], 0, n)


def branches_b(ctx, rule, b, mk, hooks=None):
    """like branches, for a body"""
    U = Unroll(ctx.P, hooks)
    out = []

    def run(u):
        a = mk()
        out.append(a)
        return u.exec(b, a)
    try:
        res = U.paths(run)
    except Unsupported as e:
        ctx.bad(rule, b.clean, 'cannot be followed: %s (near %s)' % (e, U.where))
        return None
    ctx.fns |= U.fns
    ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
    U.res = [(r, a, pc) for (r, pc), a in zip(res, out)]
    return U


MODULI = (Lord, p, 65537, 65536, 257, 256, 255, 2)


def int_codec(ctx):
    """fixed-length encodings, for a selection of moduli"""
    enc = INTT + ' as BinaryMarshaler::marshal_binary'
    dec = INTT + ' as BinaryUnmarshaler::unmarshal_binary'
    size = INTT + ' as Marshaling::marshal_size'
    for m in MODULI:
        w = (m.bit_length() + 7) // 8
        U = exe(ctx, 'integer-encode', size, [r0(mk_int('a', m=Big(m)))])
        if U is None:
            return
        ctx.ob('integer-encode', '%s modulo %s' % (size, short(m)), U.ret == w, 'announces %r bytes instead of %d' % (U.ret, w))
        for bo in ('LittleEndian', 'BigEndian'):
            B.reset()
            U = branches(ctx, 'integer-encode', enc, lambda: [r0(mk_int('a', bo, Big(m)))])
            if U is None:
                return
            bad = None
            for (r, a, pc), facts in zip(U.res, U.pfacts):
                if isinstance(r, Panic) or r.var != 'Ok':
                    bad = 'fails or panics'
                    break
                b = view(r.f[0]).items()
                if len(b) != w:
                    bad = 'is %d bytes long instead of %d' % (len(b), w)
                    break
                q = assume(L.padd(B.undigit(num(b if bo == 'LittleEndian' else b[::-1])), SYM('a'), -1), facts)
                if q:
                    bad = 'does not encode the value: %s' % why(q)
                    break
            ctx.ob('integer-encode', '%s %s modulo %s' % (enc, bo, short(m)), bad is None and bool(U.res), str(bad))
            for n in sorted({0, 1, w - 1, w, w + 1, 2 * w}):
                cl = [[(0, 255)] * n] if n != w else int_cells(m, w)
                bad = None
                for cell in cl:
                    B.reset()
                    by = [lo if lo == hi else L.inp('d', i, lo, hi) for i, (lo, hi) in enumerate(cell)]
                    data = by if bo == 'LittleEndian' else by[::-1]
                    U = branches(ctx, 'integer-decode', dec, lambda: [r0(mk_int('a', bo, Big(m))), Sl(list(data), 0, n)])
                    if U is None:
                        return
                    lo = sum(c[0] << 8 * i for i, c in enumerate(cell))
                    hi = sum(c[1] << 8 * i for i, c in enumerate(cell))
                    good = n == w and hi < m
                    for r, a, pc in U.res:
                        v = deref(a[0])
                        if isinstance(r, Panic):
                            bad = 'can panic: %s' % r
                        elif r.var != ('Ok' if good else 'Err'):
                            bad = 'an encoding %s is %s' % ('in range' if good else 'out of range or of the wrong length', 'refused' if good else 'accepted')
                        elif good and L.padd(B.of(v['v']).poly, num(by), -1):
                            bad = 'the decoded value is not the encoded one'
                        elif not good and L.pkey(B.of(v['v']).poly) != L.pkey(SYM('a')):
                            bad = 'a refused encoding changes the value'
                ctx.cov['byte_cells'] = ctx.cov.get('byte_cells', 0) + len(cl)
                ctx.ob('integer-decode', '%s %s modulo %s, %d bytes' % (dec, bo, short(m), n), bad is None, str(bad))


def int_cells(m, w):
    refs = [list(m.to_bytes(w, 'little')), list((m - 1).to_bytes(w, 'little'))]
    out = []

    def go(i, pre, alive):
        if i < 0 or not alive:
            out.append([(0, 255)] * (i + 1) + pre[::-1])
            return
        for lo, hi in cells([refs[k][i] for k in alive]):
            go(i - 1, pre + [(lo, hi)], [k for k in alive if lo == hi == refs[k][i]])
    go(w - 1, [], [0, 1])
    return out


def short(m):
    return {Lord: 'the group order', p: '2^255-19'}.get(m, str(m))


def int_pads(ctx):
    """the two padding forms"""
    for fn, big_ in (('little_endian', False), ('big_endian', True)):
        name = INTT + '::' + fn
        if body(ctx, name) is None:
            continue
        for m in (Lord, p, 65537, 256):
            w = (m.bit_length() + 7) // 8
            for lo, hi in ((w, w), (0, 0), (w + 4, 0), (w + 4, w + 4), (0, w), (0, w - 1)):
                B.reset()
                U = branches(ctx, 'integer-encode', name, lambda: [r0(mk_int('a', m=Big(m))), lo, hi])
                if U is None:
                    return
                bad = None
                for (r, a, pc), facts in zip(U.res, U.pfacts):
                    if isinstance(r, Panic):
                        bad = 'can panic: %s' % r
                    elif r.var == 'Err':
                        if hi == 0 or hi >= max(w, lo):
                            bad = 'refuses a value that fits'
                    else:
                        b = view(r.f[0]).items()
                        if len(b) < lo or hi and len(b) > hi or big_ and len(b) != max(w, lo):
                            bad = 'is %d bytes long' % len(b)
                        q = assume(L.padd(B.undigit(num(b[::-1] if big_ else b)), SYM('a'), -1), facts)
                        if q:
                            bad = 'does not encode the value: %s' % why(q)
                ctx.ob('integer-encode', '%s(%d, %d) modulo %s' % (name, lo, hi, short(m)), bad is None and bool(U.res), str(bad))


# ------------------------------------------------------------------ picking and embedding
class Cut(Panic):
    pass


def G08(ctx):
    """random points and embedded data"""
    cov(ctx)
    embed_all(ctx)
    embed_data(ctx)


def embed_all(ctx):
    U = exe(ctx, 'embed-length', PT + ' as Point::embed_len', [r0(mk_pt('A'))])
    if U is None:
        return
    cap = U.ret
    ctx.ob('embed-length', PT + ' as Point::embed_len', isinstance(cap, int) and 1 <= cap <= 30, 'announces %r bytes: with the length byte and the bits of randomness they do not fit' % (cap,))
    if not isinstance(cap, int):
        return
    cases = [('pick', None)] + [('embed', n) for n in (None, 0, 1, 2, 16, cap - 1, cap, cap + 1, 40)]
    for fn, n in cases:
        name = PT + ' as Point::' + fn
        b = body(ctx, name)
        if b is None:
            return
        lab = '%s%s' % (name, '' if fn == 'pick' else ' without data' if n is None else ' of %d bytes' % n)
        B.reset()
        D = Points(ctx)
        Sc = Scalars(ctx.P)
        log = []
        data = [L.inp('data', i, 0, 255) for i in range(n or 0)]

        def stream(U, a, t, dt):
            dst, src = view(a[1]), view(a[2])
            if dst.n != src.n or any(not isinstance(x, int) or x for x in src.items()):
                raise Unsupported('the stream is applied to something else than zeros')
            k = sum(1 for e in log if e[0] == 'draw')
            if k >= 3:
                raise Cut('cut')
            log.append(('draw', k))
            for i in range(dst.n):
                dst.c[dst.o + i] = L.inp(('rnd', k), i, 0, 255)
            return En('Ok', [[]])

        def dec(U, a, t, dt):
            v = view(a[1])
            k = len(log)
            okd = U.choose(2) == 0
            log.append(('decode', k, v.items(), okd))
            a[0].set(pt(('P', k)) if okd else pt(('junk', k)))
            return okd

        def mult(U, a, t, dt):
            return D.put(a[0], pmulc(aspt(a[2]), {(): sconst(a[1])}))

        def multb(U, a, t, dt):
            return D.put(a[0], pmulc(pt('B'), {(): sconst(a[1])}))

        def eq(U, a, t, dt):
            x, y = (aspt(deref(z)['ge']) for z in a[:2])
            q = pcomb(x, y, -1)
            if not q.c:
                return True
            t_ = U.choose(2) == 0
            log.append(('null', q, t_))
            return t_
        hooks = dict(D.hooks)
        hooks.update(Sc.hooks)
        hooks.update({'Stream::xor_key_stream': stream, EXT + '::set_bytes': dec, GE + 'ge_scalar_mult': mult, GE + 'ge_scalar_mult_base': multb,
                      PT + ' as PartialEq::eq': eq, EXT + '::write_bytes': D.encode})
        U = Unroll(ctx.P, hooks)
        out = []

        def run(u):
            del log[:]
            args = [mk_pt('old')]
            if fn == 'embed':
                args.append(NONE if n is None else some(Sl(list(data), 0, n)))
            try:
                return u.exec(b, args + [r0(('stream',))])
            finally:
                out.append(list(log))
        probs = []
        try:
            res = U.paths(run)
        except Unsupported as e:
            ctx.bad('embed', lab, 'cannot be followed: %s (near %s)' % (e, U.where))
            continue
        ctx.fns |= U.fns
        done = 0
        for (r, pc), lg in zip(res, out):
            probs += embed_path(r, lg, n if fn == 'embed' else None, data, cap)
            done += not isinstance(r, Panic)
        ctx.cov['embedding_paths'] = ctx.cov.get('embedding_paths', 0) + len(res)
        ctx.ob('embed', lab, not probs and done >= 2, str(probs[:1]) if probs else 'no successful path was followed')


def sconst(v):
    b = view(v).items()
    if not all(isinstance(x, int) for x in b):
        raise Unsupported('multiple by an unknown scalar')
    return int.from_bytes(bytes(b), 'little')


def embed_path(r, lg, n, data, cap):
    out = []
    if isinstance(r, Panic) and not isinstance(r, Cut):
        return ['can panic: %s' % r]
    good = None
    for e in lg:
        if e[0] == 'decode':
            by = e[2]
            if good is not None:
                out.append('goes on although a suitable point was found')
            if n is not None:
                dl = min(n, cap)
                if not (by[0] == dl and same_len(by[1:1 + dl], data[:dl])):
                    out.append('the decoded bytes do not carry the length and the data')
                fresh = by[1 + dl:]
            else:
                fresh = by
            d0 = sum(1 for x in lg[:lg.index(e)] if x[0] == 'draw') - 1
            for x in fresh:
                if not (isinstance(x, S) and base_atoms(x.poly) and all(isinstance(k[0], tuple) and k[0][0] == 'rnd' and k[0][1] == d0 for k in base_atoms(x.poly))):
                    out.append('the rest of the encoding is not drawn anew from the stream')
                    break
    last = [e for e in lg if e[0] == 'decode']
    nulls = [(q.key(), t) for e in lg if e[0] == 'null' for q, t in ((e[1], e[2]),)]
    dec = [e for e in lg if e[0] == 'decode' and e[3]]
    # an iteration whose point is suitable must be the last
    for e in dec:
        k = e[1]
        pnt = pt(('P', k))
        if n is None:
            ok = any(not t and key == pmulc(pnt, {(): 8}).key() for key, t in nulls)
        else:
            ok = any(t and key == pmulc(pnt, {(): Lord}).key() for key, t in nulls)
        if ok and (e is not last[-1] or isinstance(r, Cut)):
            out.append('rejects a suitable point')
    if isinstance(r, Cut):
        return out
    try:
        g = aspt(deref(r)['ge'])
    except (Unsupported, KeyError, TypeError):
        return out + ['does not give a point']
    if not last or not last[-1][3]:
        return out + ['gives a point although the bytes were refused']
    pnt = pt(('P', last[-1][1]))
    if n is None:
        if g.key() != pmulc(pnt, {(): 8}).key():
            out.append('the result is not the cofactor multiple of the decoded point, so it may lie outside the prime-order subgroup')
        elif (g.key(), False) not in nulls:
            out.append('the result may be the neutral element')
    else:
        if g.key() != pnt.key():
            out.append('the result is not the point that carries the data')
        elif (pmulc(pnt, {(): Lord}).key(), True) not in nulls:
            out.append('the result is not shown to lie in the prime-order subgroup')
    return out


def embed_data(ctx):
    name = PT + ' as Point::data'
    b = body(ctx, name)
    U = exe(ctx, 'embed-length', PT + ' as Point::embed_len', [r0(mk_pt('A'))])
    if b is None or U is None or not isinstance(U.ret, int):
        return
    cap = U.ret
    bad = None
    U = Unroll(ctx.P, {})
    L.reset()
    rest = [L.inp('e', i, 0, 255) for i in range(32)]
    for dl in range(256):
        by = [dl] + rest[1:]

        def enc(U, a, t, dt):
            v = view(a[1])
            v.c[v.o:v.o + 32] = list(by)
            return []
        U.hooks = {EXT + '::write_bytes': enc}
        try:
            for r, pc in U.paths(lambda u: u.exec(b, [r0(mk_pt('A'))])):
                if isinstance(r, Panic):
                    bad = 'can panic for length byte %d: %s' % (dl, r)
                elif dl <= cap:
                    if r.var != 'Ok' or not same_len(view(r.f[0]).items(), rest[1:1 + dl]):
                        bad = 'does not give back the %d bytes that were embedded' % dl
                elif r.var != 'Err':
                    bad = 'accepts the length byte %d' % dl
        except Unsupported as e:
            bad = 'cannot be followed: %s' % e
        if bad:
            break
    ctx.fns |= U.fns
    ctx.ob('embed-data', name, bad is None, str(bad))


# ------------------------------------------------------------------ timing
FE_T = ('FieldElement',)


def G03(ctx):
    """no branch, address or division depends on the operands"""
    cov(ctx)
    fe_ = lambda: [SECRET] * 10
    by_ = lambda: [SECRET] * 32
    ge_ = lambda k: r0(Str(k, {f: fe_() for f in FIELDS[k]}))
    ptv = lambda: Str(PT, {'ge': deref(ge_(EXT)), 'var_time': False})
    scv = lambda: mk_sc(by_())
    runs = []
    for fn, n in (('fe_add', 2), ('fe_sub', 2), ('fe_neg', 1), ('fe_copy', 1), ('fe_mul', 2), ('fe_square', 1), ('fe_square2', 1), ('fe_invert', 1), ('fe_pow22523', 1)):
        runs.append((FE + fn, lambda n=n: [r0(fe_()) for _ in range(n + 1)]))
    runs.append((FE + 'fe_c_move', lambda: [r0(fe_()), r0(fe_()), SECRET]))
    runs.append((FE + 'fe_from_bytes', lambda: [r0(fe_()), Sl(by_(), 0, 32)]))
    runs.append((FE + 'fe_to_bytes', lambda: [r0(by_()), r0(fe_())]))
    runs.append((FE + 'fe_is_negative', lambda: [r0(fe_())]))
    for fn, n in (('sc_add', 2), ('sc_sub', 2), ('sc_mul', 2), ('sc_mul_add', 3)):
        runs.append((scfn(ctx.P, fn), lambda n=n: [r0(by_()) for _ in range(n + 1)]))
    for k, fn, o in ((CMP, 'add', CCH), (CMP, 'sub', CCH), (CMP, 'mixed_add', PRE), (CMP, 'mixed_sub', PRE)):
        runs.append((CMP + '::' + fn, lambda o=o, fn=fn: byval(ctx, CMP + '::' + fn, [ge_(CMP), ge_(EXT), ge_(o)])))
    for k in (EXT, PRJ):
        runs.append((k + '::double', lambda k=k: [ge_(k), ge_(CMP)]))
    for k in (EXT, PRE, CCH):
        runs.append((k + '::neg', lambda k=k: [ge_(k), ge_(k)]))
    for k in (PRE, CCH):
        runs.append((k + '::cmove', lambda k=k: [ge_(k), ge_(k), SECRET]))
    runs += [(CMP + '::to_extended', lambda: [ge_(CMP), ge_(EXT)]), (CMP + '::to_projective', lambda: [ge_(CMP), ge_(PRJ)]), (EXT + '::write_cached', lambda: [ge_(EXT), ge_(CCH)]),
             (EXT + '::write_bytes', lambda: [ge_(EXT), r0(by_())])]
    for b in selector(ctx, SEL_C):
        runs.append((b.clean, lambda: [ge_(CCH), r0([deref(ge_(CCH)) for _ in range(8)]), SECRET]))
    for b in selector(ctx, SEL_P):
        runs.append((b.clean, lambda: [ge_(PRE), 7, SECRET]))
    runs.append((GE + 'ge_scalar_mult', lambda: [ge_(EXT), r0(by_()), ge_(EXT)]))
    runs.append((GE + 'ge_scalar_mult_base', lambda: [ge_(EXT), r0(by_())]))
    for fn, mk in (('add', lambda: [ptv(), r0(ptv()), r0(ptv())]), ('sub', lambda: [ptv(), r0(ptv()), r0(ptv())]), ('neg', lambda: [r0(ptv()), r0(ptv())]),
                   ('mul', lambda: [ptv(), r0(scv()), NONE]), ('mul', lambda: [ptv(), r0(scv()), some(r0(ptv()))])):
        runs.append((PT + ' as Point::' + fn, mk))
    runs.append((PT + ' as BinaryMarshaler::marshal_binary', lambda: [r0(ptv())]))
    for fn, n in (('sub', 2), ('neg', 1), ('inv', 1), ('div', 2)):
        runs.append((SCA + ' as Scalar::' + fn, lambda n=n: [scv()] + [r0(scv()) for _ in range(n)]))
    runs.append((SCA + ' as PartialEq::eq', lambda: [r0(scv()), r0(scv())]))
    done = {}
    for name, mk in runs:
        l = ctx.P.by_clean.get(name) or []
        b = l[0] if len(l) == 1 else None
        if b is None:
            if name.split('::')[-1] in ('mixed_sub', 'fe_c_move', 'fe_square2', 'sc_mul_add', 'cmove'):
                continue
            ctx.bad('anchor', name, 'function %s is not in the program: the rule has nothing to analyse' % name)
            continue
        quiet(ctx, name, b, mk, done)
    for trait in ('Add::add', 'Mul::mul'):
        for i, b in enumerate(ctx.P.by_clean.get(SCA + ' as ' + trait) or []):
            quiet(ctx, '%s as %s #%d' % (SCA, trait, i), b, lambda: [scv() if not b.locals[j + 1]['ty'].startswith('&') else r0(scv()) for j in range(2)], done)


def byval(ctx, name, args):
    b = ctx.P.find(name)
    return [x if b is None or b.locals[i + 1]['ty'].startswith('&') else deref(x) for i, x in enumerate(args)]


def quiet(ctx, name, b, mk, done):
    """no undecided control flow on this function; the limb layer below was examined before and is summarised"""
    hooks = {}
    for n in done:
        if n != b.clean and n.startswith(FE):
            hooks[n] = done[n]
    U = Unroll(ctx.P, hooks)
    msg = None
    try:
        U.begin()
        U.exec(b, mk())
        if U.taken:
            msg = 'control flow is not determined by public values'
    except Leak as e:
        msg = 'executes %s (at %s:%s)' % ((e,) + tuple(U.where or ('?', '?')))
    except Panic as e:
        msg = 'can panic: %s' % e
    except (Unsupported, AttributeError, TypeError) as e:
        msg = 'cannot be followed: %s (near %s)' % (e, U.where)
    ctx.fns |= U.fns
    ctx.cov['abstract_steps'] = ctx.cov.get('abstract_steps', 0) + U.steps
    ctx.ob('constant-time', name, msg is None, str(msg))
    if msg is None and b.clean.startswith(FE):
        dst = [i for i in range(b.argc) if b.locals[i + 1]['ty'].startswith('&mut')]
        if dst == [0]:
            def h(U, a, t, dt):
                v = deref(a[0])
                if isinstance(v, list):
                    if isinstance(a[0], Ref):
                        a[0].set([SECRET] * len(v))
                    else:
                        return NotImplemented
                    return []
                return NotImplemented
            done[b.clean] = h
