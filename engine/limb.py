"""Abstract integers for straight-line limb arithmetic: a polynomial over atoms (exact), an interval, and a bit layout.

An atom is an input limb or byte, a bit field of a known quantity, or the (floored) quotient of a known quantity by a power of
two.  Carries therefore cancel out symbolically: h - (q << k) + ... is kept as a polynomial in which q is an atom, and the interval
of h - 2^k q is recognised from the definition of q."""

ATOMS = []          # id -> (kind, data, lo, hi)
INDEX = {}


def atom(kind, data, lo, hi):
    k = (kind, data)
    i = INDEX.get(k)
    if i is None:
        i = INDEX[k] = len(ATOMS)
        ATOMS.append([kind, data, lo, hi])
    return i


def reset():
    ATOMS.clear()
    INDEX.clear()
    LAY.clear()
    SHR.clear()
    RNG.clear()


def pkey(p):
    return frozenset(p.items())


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m, c in a.items():
        if not m:
            for m2, c2 in b.items():
                v = r.get(m2, 0) + c * c2
                if v:
                    r[m2] = v
                else:
                    r.pop(m2, None)
            continue
        for m2, c2 in b.items():
            mm = mmul(m, m2)
            v = r.get(mm, 0) + c * c2
            if v:
                r[mm] = v
            else:
                r.pop(mm, None)
    return r


def mmul(m, n):
    if not n:
        return m
    if not m:
        return n
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def pconst(c):
    return {(): c} if c else {}


def atoms_of(p):
    return {a for m in p for a, e in m}


def irange(p):
    lo = hi = 0
    for m, c in p.items():
        a, b = c, c
        for i, e in m:
            l, h = ATOMS[i][2], ATOMS[i][3]
            for _ in range(e):
                z = (a * l, a * h, b * l, b * h)
                a, b = min(z), max(z)
            if e % 2 == 0 and len(m) == 1:
                a, b = (max(a, 0), b) if c > 0 else (a, min(b, 0))
        lo += a
        hi += b
    return lo, hi


class S:
    """abstract integer"""
    __slots__ = ('poly', 'lo', 'hi', 'tag')

    def __init__(self, poly, lo=None, hi=None):
        self.poly = poly
        self.tag = None
        if lo is None or len(poly) <= 60:
            l, h = irange(poly)
            if lo is None:
                lo, hi = l, h
            else:
                lo, hi = max(lo, l), min(hi, h)
            q = qrange(poly)
            if q:
                lo, hi = max(lo, q[0]), min(hi, q[1])
        else:
            q = qrange(poly)
            if q:
                lo, hi = max(lo, q[0]), min(hi, q[1])
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return 'S[%s]%d..%d' % (pshow(self.poly), self.lo, self.hi)


def pshow(p, n=6):
    out = []
    for m, c in sorted(p.items(), key=str)[:n]:
        out.append('%d*%s' % (c, '*'.join(ashow(a) + ('^%d' % e if e > 1 else '') for a, e in m)) if m else str(c))
    return ' + '.join(out) + (' ...%d' % len(p) if len(p) > n else '')


def ashow(i):
    k, d = ATOMS[i][0], ATOMS[i][1]
    if k == 'in':
        return '%s' % (d,) if not isinstance(d, tuple) else '%s%s' % d
    if k == 'fld':
        return '%s[%d+%d]' % (pshow(dict(d[0]), 2), d[1], d[2])
    return '%s#%d' % (k, i)


def mkS(poly, lo=None, hi=None):
    """S, or a plain int when it is a constant"""
    if not poly:
        return 0
    if len(poly) == 1 and () in poly:
        return poly[()]
    return S(poly, lo, hi)


def inp(name, idx, lo, hi):
    return S({((atom('in', (name, idx), lo, hi), 1),): 1})


def P(x):
    return pconst(int(x)) if isinstance(x, (int, bool)) else x.poly


def R(x):
    return (int(x), int(x)) if isinstance(x, (int, bool)) else (x.lo, x.hi)


def qrange(p, depth=0):
    """interval of  m P + r - m 2^k * floor(P / 2^k)"""
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and c < 0:
            k, d = ATOMS[m[0][0]][:2]
            if k == 'q' and -c % (1 << d[1]) == 0:
                if len(d[0]) > len(p) + 4:
                    continue
                base = dict(d[0])
                f = -c >> d[1]
                rest = padd(p, base, -f)
                rest = padd(rest, {m: c}, -1)
                if len(rest) >= len(p) or len(rest) > 8:
                    continue
                lo, hi = irange(rest)
                if depth < 3 and len(rest) > 1:
                    q = qrange(rest, depth + 1)
                    if q:
                        lo, hi = max(lo, q[0]), min(hi, q[1])
                lo, hi = lo, hi + f * ((1 << d[1]) - 1)
                best = (lo, hi) if best is None else (max(lo, best[0]), min(hi, best[1]))
    return best


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    (al, ah), (bl, bh) = R(a), R(b)
    return mkS(padd(P(a), P(b)), al + bl, ah + bh)


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    (al, ah), (bl, bh) = R(a), R(b)
    return mkS(padd(P(a), P(b), -1), al - bh, ah - bl)


def mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    (al, ah), (bl, bh) = R(a), R(b)
    z = (al * bl, al * bh, ah * bl, ah * bh)
    return mkS(pmul(P(a), P(b)), min(z), max(z))


def neg(a):
    return sub(0, a)


def shl(a, k):
    return mul(a, 1 << k)


def shr(a, k):
    if isinstance(a, int):
        return a >> k
    if k == 0:
        return a
    g = 1 << k
    if all(c % g == 0 for c in a.poly.values()):
        return mkS({m: c // g for m, c in a.poly.items()}, a.lo >> k, a.hi >> k)
    if a.lo >> k == a.hi >> k:
        return a.lo >> k
    if a.lo >= 0:
        l = layout(a, None)
        if l is not None:
            return from_layout(l[k:])
    r = shr_signed(a, k, g)
    if isinstance(r, S):
        key = pkey(r.poly)
        SHR.setdefault(key, (pkey(a.poly), k))
        o = RNG.get(key)
        RNG[key] = (r.lo, r.hi) if o is None else (max(o[0], r.lo), min(o[1], r.hi))
    return r


def shr_signed(a, k, g):
    # separate the part divisible by 2^k:  floor((2^k u + v) / 2^k) = u + floor(v / 2^k)
    u = {m: c // g for m, c in a.poly.items() if c % g == 0}
    if u:
        v = {m: c for m, c in a.poly.items() if c % g}
        vl, vh = S(v).lo, S(v).hi
        r = add(mkS(u), quot(v, k, vl, vh))
        return r if isinstance(r, int) else mkS(r.poly, max(r.lo, a.lo >> k), min(r.hi, a.hi >> k))
    return quot(a.poly, k, a.lo, a.hi)


def quot(p, k, lo, hi):
    if len(p) == 1 and () in p:
        return p[()] >> k
    if lo >> k == hi >> k:
        return lo >> k
    # floor(floor(x / 2^j) / 2^k) = floor(x / 2^(j+k))
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'q':
            d = ATOMS[m[0][0]][1]
            i = atom('q', (d[0], d[1] + k), lo >> k, hi >> k)
            ATOMS[i][2], ATOMS[i][3] = max(ATOMS[i][2], lo >> k), min(ATOMS[i][3], hi >> k)
            return S({((i, 1),): 1})
    i = atom('q', (pkey(p), k), lo >> k, hi >> k)
    ATOMS[i][2], ATOMS[i][3] = max(ATOMS[i][2], lo >> k), min(ATOMS[i][3], hi >> k)
    return S({((i, 1),): 1})


SHR = {}        # polynomial -> (polynomial, k) whose right shift it is
RNG = {}        # polynomial of a shifted quantity -> interval
LAY = {}        # polynomial -> bits it was assembled from


def nbits(n):
    return n.bit_length()


def bit_of(p, i, lo, hi):
    """bit i of the (two's complement) value of polynomial p"""
    if len(p) == 1 and () in p:
        return p[()] >> i & 1
    if not p:
        return 0
    if lo >= 0 and hi < 1 << i:
        return 0
    if LAY:
        l = LAY.get(pkey(p))
        if l is not None:
            return l[i] if i < len(l) else 0
    if lo < 0 and SHR:
        b = SHR.get(pkey(p))
        if b is not None:
            q = dict(b[0])
            return bit_of(q, i + b[1], lo << b[1], ((hi + 1) << b[1]) - 1)
    g = 0
    while all(c % (2 << g) == 0 for c in p.values()):
        g += 1
    if g:
        if i < g:
            return 0
        return bit_of({m: c >> g for m, c in p.items()}, i - g, lo >> g, hi >> g)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k, d = ATOMS[m[0][0]][:2]
            if k == 'fld':
                return ('b', d[0], d[1] + i) if i < d[2] else 0
            if k == 'sx' and i < d[1]:
                b = dict(d[0])
                return bit_of(b, i, 0, (1 << d[1]) - 1)
            if k == 'orb':
                return ('or', d) if i == 0 else 0
            if k == 'q':
                b = dict(d[0])
                l, h = S(b).lo, S(b).hi
                return bit_of(b, i + d[1], l, h)
    else:   # a sum of bit fields that do not overlap
        l = sum_layout(p)
        if l is not None:
            return l[i] if i < len(l) else 0
    return ('b', pkey(p), i)


def sum_layout(p):
    out = {}
    for m, c in p.items():
        if c <= 0 or c & (c - 1):
            if m == () and c > 0:
                for j in range(nbits(c)):
                    if c >> j & 1:
                        if j in out:
                            return None
                        out[j] = 1
                continue
            return None
        if len(m) != 1 or m[0][1] != 1:
            return None
        i = m[0][0]
        k, d, lo, hi = ATOMS[i]
        if lo < 0 or k not in ('fld', 'in', 'q', 'orb', 'bool') or hi > 1 << 64:
            return None
        s = nbits(c) - 1
        for j in range(nbits(hi)):
            if s + j in out:
                return None
            out[s + j] = bit_of({m: 1}, j, lo, hi)
    n = max(out) + 1 if out else 0
    return [out.get(j, 0) for j in range(n)]


def layout(x, n=None):
    """bits of x, least significant first; None when x may be negative (unless n bits are asked for)"""
    if isinstance(x, int):
        if x < 0 and n is None:
            return None
        return [x >> i & 1 for i in range(n if n is not None else nbits(x))]
    if x.lo < 0 and n is None:
        return None
    if n is None:
        n = nbits(x.hi)
    l = LAY.get(pkey(x.poly))
    if l is not None:
        return (l + [0] * n)[:n]
    return [bit_of(x.poly, i, x.lo, x.hi) for i in range(n)]


def from_layout(bits):
    """the number with these bits"""
    while bits and bits[-1] == 0:
        bits = bits[:-1]
    p = {}
    i = 0
    n = len(bits)
    while i < n:
        b = bits[i]
        if b == 0:
            i += 1
            continue
        if b == 1:
            p = padd(p, {(): 1 << i})
            i += 1
            continue
        if b[0] == 'or':
            p = padd(p, {((atom('orb', b[1], 0, 1), 1),): 1 << i})
            i += 1
            continue
        j = i + 1
        while j < n and isinstance(bits[j], tuple) and bits[j][0] == 'b' and bits[j][1] == b[1] and bits[j][2] == b[2] + j - i:
            j += 1
        p = padd(p, pscale(field(b[1], b[2], j - i), 1 << i))
        i = j
    if len(p) > 1:
        LAY[pkey(p)] = list(bits)
    return mkS(p)


def field(base, lo, n):
    """bits [lo, lo+n) of the quantity with polynomial `base`"""
    b = dict(base)
    s = S(b)
    if s.lo >= 0 and s.hi < 1 << (lo + n):
        if lo == 0:
            return b
        q = quot(b, lo, s.lo, s.hi)
        return P(q)
    i = atom('fld', (base, lo, n), 0, (1 << n) - 1)
    return {((i, 1),): 1}


def unfield(p):
    """bit fields written out as differences of quotients"""
    out = {}
    for m, c in p.items():
        i = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
        if i is not None and ATOMS[i][0] == 'fld':
            base, lo, n = ATOMS[i][1]
            b = dict(base)
            r = irange(b)
            low = P(quot(b, lo, *r)) if lo else b
            lo_r = (r[0] >> lo, r[1] >> lo)
            high = P(quot(low, n, *lo_r))
            out = padd(out, pscale(padd(low, pscale(high, 1 << n), -1), c))
        else:
            out = padd(out, {m: c})
    return out


def mask(x, c):
    """x & c for a non-negative constant c"""
    if isinstance(x, int):
        return x & c
    if c == 0:
        return 0
    if c & (c + 1) == 0:
        if x.lo >= 0 and x.hi <= c:
            return x
        n = nbits(c)
        if x.lo >> n == x.hi >> n:          # the bits above the mask are known
            return sub(x, x.lo >> n << n)
    elif x.lo >= 0:
        t = (c & -c).bit_length() - 1
        if c == ((1 << nbits(c)) - (1 << t)) and nbits(x.hi) <= nbits(c):      # only the low t bits are dropped
            r = mask_(x, c)
            return r if isinstance(r, int) else mkS(r.poly, max(r.lo, x.lo >> t << t), min(r.hi, x.hi >> t << t))
    return mask_(x, c)


def mask_(x, c):
    l = layout(x, nbits(c))
    return from_layout([b if c >> i & 1 else 0 for i, b in enumerate(l)])


def trunc(x, bits, signed):
    """conversion to a machine type"""
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if isinstance(x, int):
        v = x & ((1 << bits) - 1)
        return v - (1 << bits) if signed and v >> (bits - 1) else v
    if lo <= x.lo and x.hi <= hi:
        return x
    k = (x.lo - lo) >> bits
    if k == (x.hi - lo) >> bits:            # wraps around a known number of times
        return sub(x, k << bits)
    return signed_layout(layout(x, bits), bits, signed)


def signed_layout(l, bits, signed):
    """the machine number with these bits"""
    if signed and l[-1] != 0:
        v = P(from_layout(l))
        if len(v) == 1 and () in v:
            return v[()] - (1 << bits)
        i = atom('sx', (pkey(v), bits), -(1 << bits - 1), (1 << bits - 1) - 1)
        return S({((i, 1),): 1})
    return from_layout(l)


def bits2(x, y, f, tag, bits, signed):
    """bitwise combination"""
    if isinstance(x, int) and isinstance(y, int):
        return {'or': x | y, 'xor': x ^ y, 'and': x & y}[tag]
    if tag == 'and':
        for a, b in ((x, y), (y, x)):
            if isinstance(b, int):
                if b == -1:
                    return a
                if b >= 0:
                    return mask(a, b)
                if a.lo >= 0:
                    return mask(a, b & ((1 << nbits(a.hi)) - 1))
        if not isinstance(x, int) and not isinstance(y, int) and x.poly == y.poly:
            return x
    else:
        for a, b in ((x, y), (y, x)):
            if isinstance(b, int) and b == 0:
                return a
        if tag == 'xor':
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and b > 0 and b & (b + 1) == 0 and R(a)[0] >= 0 and R(a)[1] <= b:
                    return sub(b, a)        # all bits flipped
            xa, ya = xor_parts(x), xor_parts(y)
            parts = xa ^ ya
            if not parts:
                return 0
            if len(parts) == 1 and len(xa) + len(ya) > 1 and (len(xa) > 1 or len(ya) > 1):
                return S(dict(next(iter(parts))))
            if len(xa) > 1 or len(ya) > 1:
                return xor_atom(parts, bits, signed)
        elif not isinstance(x, int) and not isinstance(y, int) and x.poly == y.poly:
            return x
    lx, ly = layout(x), layout(y)
    if lx is not None and ly is not None:
        n = max(len(lx), len(ly))
        lx = lx + [0] * (n - len(lx))
        ly = ly + [0] * (n - len(ly))
        out = []
        for a, b in zip(lx, ly):
            z = f(a, b)
            if z is None:
                break
            out.append(z)
        else:
            r = from_layout(out)
            if tag == 'or' and isinstance(r, S):
                r = mkS(r.poly, max(r.lo, R(x)[0], R(y)[0]), r.hi)
            return r
    if tag == 'xor':
        r = xor_atom(xor_parts(x) ^ xor_parts(y), bits, signed)
        if isinstance(r, S) and r.lo == 0 and (R(x)[1] < R(y)[0] or R(y)[1] < R(x)[0]):
            r.lo = 1                        # different numbers
        return r
    if signed:
        out = [f(a, b) for a, b in zip(layout(x, bits), layout(y, bits))]
        if None not in out:
            return signed_layout(out, bits, signed)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if R(x)[0] >= 0 and R(y)[0] >= 0:
        lo, hi = 0, (1 << max(nbits(R(x)[1]), nbits(R(y)[1]))) - 1
    ks = frozenset((pkey(P(x)), pkey(P(y))))
    r = S({((atom(tag, ks, lo, hi), 1),): 1})
    if tag == 'or' and lo == 0:
        r.lo = max(r.lo, R(x)[0], R(y)[0])
    return r


def xor_parts(x):
    p = P(x)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'xor':
            return ATOMS[m[0][0]][1]
    return frozenset((pkey(p),)) if p else frozenset()


def xor_atom(parts, bits, signed):
    if not parts:
        return 0
    if len(parts) == 1:
        p = dict(next(iter(parts)))
        return mkS(p)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    rs = [R(mkS(dict(p))) for p in parts]
    if all(r[0] >= 0 for r in rs):
        lo, hi = 0, (1 << max(nbits(r[1]) for r in rs)) - 1
    return S({((atom('xor', frozenset(parts), lo, hi), 1),): 1})


def f_or(a, b):
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a == 1 or b == 1:
        return 1
    sa = a[1] if a[0] == 'or' else frozenset((a,))
    sb = b[1] if b[0] == 'or' else frozenset((b,))
    return ('or', sa | sb)


def f_xor(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    if a == b:
        return 0
    return None


def f_and(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    return None


def telescope(p):
    """rewrite bit fields of input atoms as differences of their floored quotients, so that complementary fields cancel"""
    sub = {}
    for a in atoms_of(p):
        k, d = ATOMS[a][:2]
        if k != 'fld':
            continue
        base = dict(d[0])
        s = S(base)
        lo, n = d[1], d[2]
        hi = quot(base, lo + n, s.lo, s.hi)
        low = P(quot(base, lo, s.lo, s.hi)) if lo else base
        sub[a] = padd(low, P(hi), -(1 << n))
    if not sub:
        return p
    return substitute(p, sub)


def substitute(p, sub):
    r = {}
    for m, c in p.items():
        if any(a in sub for a, e in m):
            t = {(): c}
            for a, e in m:
                for _ in range(e):
                    t = pmul(t, sub[a] if a in sub else {((a, 1),): 1})
            r = padd(r, t)
        else:
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pmod(p, n):
    return {m: c % n for m, c in p.items() if c % n}


def is_floor(base, N, s, budget=None):
    """is `base` = floor(N / 2^s) by the definitions of the quotients in it?"""
    budget = budget if budget is not None else [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if s == 0:
        return base == N
    cand = sorted((m[0][0] for m, c in base.items() if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'q'), reverse=True)
    for i in cand:
        b, k = ATOMS[i][1]
        if k > s:
            continue
        x = dict(base)
        del x[((i, 1),)]
        if is_floor(dict(b), padd(N, x, -(1 << s)) if x else N, s - k, budget):
            return True
    return False


def unquot(p, depth=0):
    """flatten nested quotients: (N, s) with p = floor(N / 2^s), N free of the quotient atoms that could be merged"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'q':
            base, k = ATOMS[m[0][0]][1]
            base = dict(base)
            # base = x + floor(N2 / 2^s2): floor((x + floor(N2/2^s2)) / 2^k) = floor((x 2^s2 + N2) / 2^(k+s2))
            for m2, c2 in base.items():
                if c2 == 1 and len(m2) == 1 and m2[0][1] == 1 and ATOMS[m2[0][0]][0] == 'q':
                    x = dict(base)
                    del x[m2]
                    N2, s2 = unquot({m2: 1}, depth + 1)
                    return padd(pscale(x, 1 << s2), N2), k + s2
            return base, k
    return p, 0


class Unknown(Exception):
    pass


def ev(p, env):
    """value of a polynomial when the inputs have the values in env"""
    r = 0
    for m, c in p.items():
        for a, e in m:
            c *= eva(a, env) ** e
        r += c
    return r


def eva(a, env):
    k, d = ATOMS[a][:2]
    if k == 'in':
        if d in env:
            return env[d]
        raise Unknown(d)
    if k == 'fld':
        return ev(dict(d[0]), env) >> d[1] & ((1 << d[2]) - 1)
    if k == 'q':
        return ev(dict(d[0]), env) >> d[1]
    if k == 'sx':
        v = ev(dict(d[0]), env)
        return v - (1 << d[1]) if v >> (d[1] - 1) else v
    if k == 'xor':
        r = 0
        for q in d:
            r ^= ev(dict(q), env)
        return r
    if k in ('or', 'and'):
        l = [ev(dict(q), env) for q in d]
        if len(l) == 1:
            return l[0]
        return l[0] | l[1] if k == 'or' else l[0] & l[1]
    if k == 'orb':
        return int(any(b == 1 or isinstance(b, tuple) and ev(dict(b[1]), env) >> b[2] & 1 for b in d))
    raise Unknown(k)
