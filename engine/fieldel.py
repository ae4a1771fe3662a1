"""Coarse domain for code that computes on field elements: polynomials over GF(2^255-19) in named unknowns, with a bound on the limbs.

The operations of the limb layer are replaced by their meaning (established by the limb rules); a bound in units of
(2^25, 2^24) is carried so that the precondition of every multiplication is checked where it is called."""
import limb as L
from limb import S
from unroll import Str, Ref, Sl, Cond, Unsupported, deref, view, cp

p = 2**255 - 19
d = -121665 * pow(121666, p - 2, p) % p
Lord = 2**252 + 27742317777372353535851937790883648493
EXP = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]
MULB = 3.3        # bound the multiplication tolerates (1.65 * 2^26)
OUTB = 1.1        # bound of its result (1.1 * 2^25)


def mm(a, b):
    r = dict(a)
    for k, e in b:
        v = r.get(k, 0) + e
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return tuple(sorted(r.items(), key=repr))


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % p
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            t = mm(m, n)
            v = (r.get(t, 0) + c * e) % p
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    if len(r) > 4000:
        raise Unsupported('field expression too large')
    return r


def con(c):
    c %= p
    return {(): c} if c else {}


def var(n, e=1):
    return {((n, e),): 1}


def power(a, n):
    r = con(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def prod(*a):
    r = con(1)
    for x in a:
        r = mul(r, x)
    return r


def curve(q, xs):
    """reduce by the curve equation -x^2 + y^2 = 1 + d x^2 y^2 for each pair (x, y)"""
    di = pow(d, p - 2, p)
    for x, y in xs:
        while True:
            for m, c in q.items():
                e = dict(m)
                if e.get(x, 0) >= 2 and e.get(y, 0) >= 2:
                    break
            else:
                break
            base = mm(m, ((x, -2), (y, -2)))
            r = add(q, {m: c}, -1)
            # x^2 y^2 = (y^2 - x^2 - 1) / d
            q = add(r, mul({base: c * di % p}, add(add(var(y, 2), var(x, 2), -1), con(1), -1)))
    return q


class FEl:
    __slots__ = ('p', 'b')

    def __init__(self, p, b):
        self.p, self.b = p, b

    def key(self):
        return frozenset(self.p.items())

    def __repr__(self):
        return 'FEl(%s)' % self.p


def value(limbs):
    return sum(x << e for x, e in zip(limbs, EXP))


def fel(v):
    v = deref(v)
    if isinstance(v, FEl):
        return v
    if isinstance(v, Sl):
        v = v.items()
    if isinstance(v, list) and len(v) == 10 and all(isinstance(x, int) for x in v):
        return FEl(con(value(v)), max(abs(x) / (2.0 ** (25 if i % 2 == 0 else 24)) for i, x in enumerate(v)))
    raise Unsupported('field element %r' % (v,))


def put(ref, f):
    if not isinstance(ref, Ref):
        raise Unsupported('destination of a field operation')
    ref.set(f)
    return []


class Field:
    """hooks for the functions of the limb layer; `problems` collects violated preconditions"""

    def __init__(self, pre='group::edwards25519::fe::'):
        self.problems = []
        self.names = {}
        self.pows = {}
        self.enc = {}
        h = self.hooks = {}
        for n in ('zero', 'one', 'add', 'sub', 'copy', 'c_move', 'neg', 'mul', 'square', 'square2', 'invert', 'pow22523', 'is_negative', 'is_non_zero', 'from_bytes', 'to_bytes'):
            h[pre + 'fe_' + n] = getattr(self, n)
        self.seen = {}

    def note(self, n):
        self.seen[n] = self.seen.get(n, 0) + 1

    def zero(self, U, a, t, dt):
        return put(a[0], FEl({}, 0.0))

    def one(self, U, a, t, dt):
        return put(a[0], FEl(con(1), 0.001))

    def add(self, U, a, t, dt):
        x, y = fel(a[1]), fel(a[2])
        return put(a[0], self.lim(U, FEl(add(x.p, y.p), x.b + y.b)))

    def sub(self, U, a, t, dt):
        x, y = fel(a[1]), fel(a[2])
        return put(a[0], self.lim(U, FEl(add(x.p, y.p, -1), x.b + y.b)))

    def lim(self, U, f):
        if f.b > 60:
            self.problems.append((U.where, 'an addition may leave the range of a limb'))
        return f

    def copy(self, U, a, t, dt):
        return put(a[0], fel(a[1]))

    def neg(self, U, a, t, dt):
        x = fel(a[1])
        return put(a[0], FEl(add({}, x.p, -1), x.b))

    def c_move(self, U, a, t, dt):
        if not isinstance(a[2], int) or a[2] not in (0, 1):
            raise Unsupported('selector of a conditional move')
        if a[2]:
            put(a[0], fel(a[1]))
        return []

    def pre(self, U, *xs):
        self.note(U.where)
        for x in xs:
            if x.b > MULB:
                self.problems.append((U.where, 'operand of a field multiplication exceeds the range it is correct for (%.2f > %.2f)' % (x.b, MULB)))

    def mul(self, U, a, t, dt):
        x, y = fel(a[1]), fel(a[2])
        self.pre(U, x, y)
        return put(a[0], FEl(mul(x.p, y.p), OUTB))

    def square(self, U, a, t, dt):
        x = fel(a[1])
        self.pre(U, x)
        return put(a[0], FEl(mul(x.p, x.p), OUTB))

    def square2(self, U, a, t, dt):
        x = fel(a[1])
        self.pre(U, x)
        return put(a[0], FEl(mul(con(2), mul(x.p, x.p)), OUTB))

    def invert(self, U, a, t, dt):
        x = fel(a[1])
        self.pre(U, x)
        if len(x.p) != 1:
            n = self.fresh('inv', x)
            return put(a[0], FEl(var(n), OUTB))
        (m, c), = x.p.items()
        return put(a[0], FEl({tuple((k, -e) for k, e in m): pow(c, p - 2, p)}, OUTB))

    def fresh(self, kind, x):
        k = (kind, x.key())
        if k not in self.names:
            self.names[k] = '%s%d' % (kind, len(self.names))
            self.pows[self.names[k]] = x.p
        return self.names[k]

    def pow22523(self, U, a, t, dt):
        x = fel(a[1])
        self.pre(U, x)
        return put(a[0], FEl(var(self.fresh('pow22523_', x)), OUTB))

    def is_negative(self, U, a, t, dt):
        x = fel(a[0])
        self.tb(U, x)
        return L.inp('sgn', self.idx(x), 0, 1)

    def is_non_zero(self, U, a, t, dt):
        x = fel(a[0])
        self.tb(U, x)
        if not x.p:
            return 0
        if len(x.p) == 1 and () in x.p:
            return 1
        return L.inp('nz', self.idx(x), 0, 1)

    def idx(self, x):
        k = x.key()
        if k not in self.enc:
            self.enc[k] = len(self.enc)
        return self.enc[k]

    def poly(self, i):
        for k, v in self.enc.items():
            if v == i:
                return dict(k)

    def tb(self, U, x):
        # fe_to_bytes is correct while |h| < 2^255 or so; sums of two reduced elements are still within its proof
        if x.b > TOB:
            self.problems.append((U.where, 'encoding of a field element whose limbs are not reduced'))

    def to_bytes(self, U, a, t, dt):
        x = fel(a[1])
        self.tb(U, x)
        i = self.idx(x)
        v = view(a[0])
        if v.n != 32:
            raise Unsupported('encoding into %d bytes' % v.n)
        for j in range(32):
            v.c[v.o + j] = L.inp('enc%d' % i, j, 0, 127 if j == 31 else 255)
        return []

    def from_bytes(self, U, a, t, dt):
        v = view(a[1])
        if v.n < 32:
            raise Unsupported('decoding of %d bytes' % v.n)
        key = tuple(repr(x) for x in v.items()[:32])
        return put(a[0], FEl(var(self.fresh('dec', FEl({((key, 1),): 1}, 0))), OUTB))


TOB = 2.3
