"""Abstract big integers: a polynomial over the atoms of limb.py and an interval whose ends are linear in an unknown modulus.

A remainder is a fresh atom about which two things are remembered: what it is congruent to, and its interval.  The modulus is either
known or a symbol; then interval ends a m + b are compared for every m >= 2."""
import limb as L
from limb import S

REM = {}       # atom -> (polynomial it is congruent to, modulus key)
DIG = {}       # name of a byte string -> polynomial it is the encoding of
LENS = {}      # name -> number of significant bytes of the big endian encoding
MSYM = 'm'
COUNT = [0]


def reset():
    L.reset()
    REM.clear()
    DIG.clear()
    LENS.clear()
    COUNT[0] = 0


def fresh():
    COUNT[0] += 1
    return COUNT[0]


def le(a, b):
    """a <= b for every modulus >= 2 (None: unbounded)"""
    if a is None or b is None:
        return False
    al, be = b[0] - a[0], b[1] - a[1]
    return al >= 0 and 2 * al + be >= 0


def badd(a, b, k=1):
    return None if a is None or b is None else (a[0] + k * b[0], a[1] + k * b[1])


class BigS:
    __slots__ = ('poly', 'lo', 'hi')

    def __init__(self, poly, lo, hi):
        self.poly, self.lo, self.hi = poly, lo, hi

    def nonneg(self):
        return self.lo is not None and le((0, 0), self.lo)

    def neg_(self):
        return self.hi is not None and le(self.hi, (0, 0))

    def within(self, lo, hi):
        return le(lo, self.lo) and le(self.hi, hi)

    def key(self):
        return ('big', L.pkey(self.poly))

    def __repr__(self):
        return 'BigS(%s in %s..%s)' % (L.pshow(self.poly), self.lo, self.hi)


def of(x):
    from unroll import Big
    if isinstance(x, BigS):
        return x
    if isinstance(x, Big):
        x = x.v
    if isinstance(x, (int, bool)):
        return BigS(L.pconst(int(x)), (0, int(x)), (0, int(x)))
    if isinstance(x, S):
        return BigS(x.poly, (0, x.lo), (0, x.hi))
    return None


def symbol(name, lo, hi):
    i = L.atom('in', ('big', name), -(1 << 4096), 1 << 4096)
    return BigS({((i, 1),): 1}, lo, hi)


def modulus():
    return symbol(MSYM, (1, 0), (1, 0))


def is_modulus(x):
    """(key, bound) when x is a positive quantity that can serve as a modulus"""
    if x.lo == x.hi and x.lo is not None and le((0, 1), x.lo):
        return (L.pkey(x.poly), x.lo)
    return None


def arith(op, a, b):
    a, b = of(a), of(b)
    if a is None or b is None:
        return None
    if op == 'add':
        return BigS(L.padd(a.poly, b.poly), badd(a.lo, b.lo), badd(a.hi, b.hi))
    if op == 'sub':
        return BigS(L.padd(a.poly, b.poly, -1), badd(a.lo, b.hi, -1), badd(a.hi, b.lo, -1))
    if op == 'mul':
        lo = (0, 0) if a.nonneg() and b.nonneg() or a.neg_() and b.neg_() else None
        hi = (0, 0) if a.nonneg() and b.neg_() or a.neg_() and b.nonneg() else None
        for x, y in ((a, b), (b, a)):
            if y.lo == y.hi and y.lo is not None and y.lo[0] == 0:
                k = y.lo[1]
                if k >= 0:
                    lo, hi = (None if x.lo is None else (x.lo[0] * k, x.lo[1] * k)), (None if x.hi is None else (x.hi[0] * k, x.hi[1] * k))
                else:
                    hi, lo = (None if x.lo is None else (x.lo[0] * k, x.lo[1] * k)), (None if x.hi is None else (x.hi[0] * k, x.hi[1] * k))
        return BigS(L.pmul(a.poly, b.poly), lo, hi)
    if op == 'rem':
        m = is_modulus(b)
        if m is None:
            return None
        key, bd = m
        top = (bd[0], bd[1] - 1)
        if a.nonneg() and le(a.hi, top):
            return a
        if a.nonneg():
            lo, hi = (0, 0), top
        elif a.neg_():
            lo, hi = (-top[0], -top[1]), (0, 0)
        else:
            lo, hi = (-top[0], -top[1]), top
        i = L.atom('rem', (L.pkey(a.poly), key), -(1 << 4096), 1 << 4096)
        REM[i] = (a.poly, key)
        return BigS({((i, 1),): 1}, lo, hi)
    return None


def value(p, key):
    """the polynomial with remainders (by the modulus with this key) replaced by what they are congruent to"""
    for _ in range(40):
        sub = {i: REM[i][0] for i in L.atoms_of(p) if i in REM and REM[i][1] == key}
        for i in L.atoms_of(p):
            k, d = L.ATOMS[i][:2]
            if k == 'fld':
                pass
        if not sub:
            break
        p = L.substitute(p, sub)
    return p


def undigit(p):
    """replace complete byte strings by the number they encode"""
    for name, (q, n, hi) in list(DIG.items()):
        lead = L.INDEX.get(('in', (name, 0)))
        if lead is None or ((lead, 1),) not in p:
            continue
        c = p[((lead, 1),)]
        t = dict(p)
        ok = True
        for j in range(n):
            a = L.INDEX.get(('in', (name, j)))
            if t.get(((a, 1),)) != c << 8 * j:
                ok = False
                break
            del t[((a, 1),)]
        if ok:
            p = L.padd(t, L.pscale(q, c))
    return p


def congruent(p, q, mod):
    """None, or the difference that does not vanish modulo `mod` (BigS)"""
    key, bd = is_modulus(mod)
    d = L.padd(undigit(p), q, -1)
    d = value(d, key)
    d = undigit(d)
    d = L.telescope(d)
    if bd[0] == 0:
        d = L.pmod(d, bd[1])
    else:
        i = L.atom('in', ('big', MSYM), -(1 << 4096), 1 << 4096)
        d = {m: c for m, c in d.items() if not any(a == i for a, e in m)}
    return d or None


def sign(U, x):
    """Plus, Minus or NoSign, splitting the range when it is not decided"""
    opts = []
    if x.hi is None or not le(x.hi, (0, 0)):
        opts.append('Plus')
    if (x.lo is None or le(x.lo, (0, 0)) or not le((0, 1), x.lo)) and (x.hi is None or le((0, 0), x.hi) or not le(x.hi, (0, -1))):
        opts.append('NoSign')
    if x.lo is None or not le((0, 0), x.lo):
        opts.append('Minus')
    c = opts[U.choose(len(opts))] if len(opts) > 1 else opts[0]
    if c == 'Plus' and not (x.lo is not None and le((0, 1), x.lo)):
        x.lo = (0, 1)
    elif c == 'Minus' and not (x.hi is not None and le(x.hi, (0, -1))):
        x.hi = (0, -1)
    elif c == 'NoSign':
        x.lo = x.hi = (0, 0)
        U.facts.append(('zero', x.poly))
        x.poly = {}
    return c


def order(U, x, y):
    """Less, Equal or Greater, splitting when it is not decided"""
    d = arith('sub', x, y)
    c = {'Plus': 'Greater', 'NoSign': 'Equal', 'Minus': 'Less'}[sign(U, d)]
    if c == 'Less':
        h = badd(y.hi, (0, -1))
        if h is not None and not le(x.hi, h):
            x.hi = h
    elif c == 'Greater':
        h = badd(y.lo, (0, 1))
        if h is not None and not le(h, x.lo):
            x.lo = h
    return c


def to_bytes(U, x, big):
    """significant bytes, most significant first when `big`; the number of them is split on"""
    if not x.nonneg() or x.hi is None or x.hi[0] != 0:
        return None
    if x.hi == x.lo:
        v = x.hi[1]
        b = list(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'))
        return b[::-1] if big else b
    top = max(1, (x.hi[1].bit_length() + 7) // 8)
    low = max(1, (x.lo[1].bit_length() + 7) // 8)
    name = ('dig', L.pkey(x.poly))
    n = U.facts_len(name, low, top)
    name = name + (n,)
    DIG[name] = (x.poly, n, x.hi)
    b = [L.inp(name, i, 1 if i == n - 1 and n > 1 else 0, 255 if i < top - 1 else x.hi[1] >> 8 * i) for i in range(n)]
    return b[::-1] if big else b
