"""X03: what arrives from outside cannot make an operation panic."""
from lib import *
from lib import State
from rules.cross import _calls
import re

OPT, RES = ('Some', 'None'), ('Ok', 'Err')
# writing encodings into a hash state, a buffer or an XOF, and reading from an XOF, do not fail
INFALLIBLE = ('Marshaling::marshal_to', 'Marshaling::marshal_binary', 'BinaryMarshaler::marshal_binary', 'Write::write_all', 'Write::write', 'Read::read_exact',
              'WriteBytesExt::write_u32', 'Write::flush')


def lin(t, facts, depth=0):
    """an unsigned term as (atoms with coefficients, constant); a difference that might wrap is an atom"""
    if t.op == 'const' and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return {}, t.a[1]
    if t.op == 'bin' and t.a[0] in ('Add', 'AddUnchecked', 'AddWithOverflow') and not wraps(t.a[1], facts) and not wraps(t.a[2], facts):
        (a, c), (b, d) = lin(t.a[1], facts, depth), lin(t.a[2], facts, depth)
        return comb(a, b, 1), c + d
    if t.op == 'bin' and t.a[0] in ('Sub', 'SubUnchecked', 'SubWithOverflow') and depth < 3:
        (a, c), (b, d) = lin(t.a[1], facts, depth + 1), lin(t.a[2], facts, depth + 1)
        f = comb(a, b, -1), c - d
        if nonneg(f, facts, depth + 1):
            return f
    if t.op == 'bin' and t.a[0] == 'Mul':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == 'const':
                a, c = lin(y, facts, depth)
                return {k: v * x.a[1] for k, v in a.items()}, c * x.a[1]
    if t.op == 'call' and t.a[0] == 'len' and len(t.a) == 2:
        l = length(t.a[1], facts, depth)
        if l is not None:
            return l
    if t.op == 'call' and t.a[0] == 'max' and len(t.a) == 3:
        return {t: 1}, 0
    return {t: 1}, 0


def comb(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


def length(c, facts, depth=0):
    """the length of container c as a linear form, where more is known than its name"""
    from norm import same_length
    c = same_length(c)
    if c.op == 'array':
        return {}, len(c.a)
    if c.op == 'call' and c.a[0] == 'repeat' and c.a[-1].op == 'const':
        n = c.a[-1].a[1]
        if isinstance(n, int) or isinstance(n, str) and n.isdigit():
            return {}, int(n)
    if c.op == 'mut' and isinstance(c.a[1], int) and len(c.a) > 2 + c.a[1] and c.a[0] not in ('insert',):
        x = c.a[2 + c.a[1]]
        while x.op == 'mut' and isinstance(x.a[1], int) and len(x.a) > 2 + x.a[1]:
            x = x.a[2 + x.a[1]]
        if x.op == 'call' and x.a[0] == 'repeat':        # an array, however written to, keeps its length
            return length(x, facts, depth)
    if c.op == 'phi' and depth < 6:
        u = unstored(c)
        if u is not c:
            return lin(mk('call', 'len', u), facts, depth + 1)
        return pushed(c, facts, depth)
    if c.op == 'call' and c.a[0] in ('Vec::new', 'Vec::with_capacity'):
        return {}, 0
    if c.op in ('field', 'param'):
        n = fixed_len(c)
        if n is not None:
            return {}, n
    if c.op in ('field', 'vf') and c.a[1] == '1' and c.a[0].op == 'call' and c.a[0].a[0] in ('BigInt::to_bytes_le', 'BigInt::to_bytes_be') and \
            len(c.a[0].a) == 2 and show(c.a[0].a[1]).count('PRIME_ORDER') == 1:
        return {}, 32       # G02 decides that the constant is the 253 bit group order
    if c.op == 'call' and c.a[0] == 'slice' and len(c.a) == 3 and c.a[2].op == 'adt':
        d = dict(c.a[2].a[2])
        lo = lin(d['start'], facts, depth) if 'start' in d else ({}, 0)
        hi = lin(d['end'], facts, depth) if 'end' in d else lin(mk('call', 'len', c.a[1]), facts, depth)
        if c.a[2].a[1] in ('Range', 'RangeTo', 'RangeFrom', 'RangeFull'):
            return comb(hi[0], lo[0], -1), hi[1] - lo[1]
    if c.op == 'call' and c.a[0] == 'Dh::hkdf' and len(c.a) >= 4 and c.a[3].op == 'adt' and c.a[3].a[1] == 'Some':
        return lin(c.a[3].a[2][0][1], facts, depth)
    if c.op == 'bytes' and len(c.a) == 1 and c.a[0].op == 'rep' and len(c.a[0].a) == 2 and len(c.a[0].a[1]) == 1:
        return count(c.a[0].a[0], facts, depth)
    if c.op == 'call' and c.a[0] == 'vec::from_elem' and len(c.a) == 3:
        return lin(c.a[2], facts, depth)
    if c.op == 'mut' and c.a[0] == 'Vec::resize' and len(c.a) >= 4:
        return lin(c.a[3], facts, depth)
    if c.op == 'hash' or c.op == 'call' and c.a[0].split('::')[-1] in ('finalize', 'finalize_reset', 'digest'):
        return None
    return None


def pushed(c, facts, depth):
    """a list a finished loop adds one element to in every iteration"""
    if c not in PHI_ROW:
        return None
    L = PHI_ROW[c][0][:2]
    if (mk('done', L), True) not in facts:
        return None
    base, g = None, PHI_GATE.get(c, {})
    for x in PHI_ALTS.get(c, ()):
        b = x.a[2] if x.op == 'mut' and x.a[0] == 'Vec::push' and x.a[1] == 0 else None
        if b is None:
            if base not in (None, x) or x.op == 'phi' and x is c:
                return None
            base = x
    n = None
    for x in PHI_ALTS.get(c, ()):
        if x is base:
            continue
        if x.a[2] is not c and x.a[2] is not base:
            return None
        for f, _ in g.get(x, ()):
            for e in subterms_np(f):
                if e.op == 'elem' and e.a[1] in (L, ('prev', L)):
                    k = count(e.a[0], facts, depth + 1)
                    if k is not None and n not in (None, k):
                        return None
                    n = k if k is not None else n
    if base is None or n is None:
        return None
    a, d = lin(mk('call', 'len', base), facts, depth + 1)
    return comb(a, n[0], 1), d + n[1]


def count(c, facts, depth=0):
    """how many elements a loop over c visits"""
    if c.op == 'adt' and c.a[1] == 'Range':
        d = dict(c.a[2])
        (a, p), (b, q) = lin(d['start'], facts, depth), lin(d['end'], facts, depth)
        f = comb(b, a, -1), q - p
        return f if not a and p == 0 else None
    if hasattr(c, 'op'):
        return lin(mk('call', 'len', c), facts, depth)
    return None


def forms(facts):
    """the facts between unsigned terms as linear forms that are not negative"""
    out = []
    for f, v in facts:
        if f.op == 'lt':
            out.append((f.a[1], f.a[0], 1) if v else (f.a[0], f.a[1], 0))
        elif f.op == 'eq' and v:
            out.append((f.a[0], f.a[1], 0))
            out.append((f.a[1], f.a[0], 0))
        elif f.op == 'eq' and not v:
            for x, y in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                if y.op == 'const' and y.a[1] == 0:
                    out.append((x, y, 1))
        elif f.op == 'call' and f.a[0] == 'is_empty' and not v:
            out.append((mk('call', 'len', f.a[1]), mk('const', 'int', 0), 1))
    return out


_fc = {}


def fact_forms(facts):
    r = _fc.get(id(facts))
    if r is None or r[0] is not facts:
        l = []
        for a, b, c in forms(facts):
            (x, p), (y, q) = lin(a, facts, 9), lin(b, facts, 9)
            l.append((comb(x, y, -1), p - q - c))
        r = _fc[id(facts)] = (facts, l)
    return r[1]


def nonneg(f, facts, depth=0, used=()):
    """the linear form is not negative: a sum of facts and unsigned atoms"""
    at, c = f
    neg = [k for k, v in at.items() if v < 0]
    if not neg:
        return c >= 0 or bool(c < 0 and step(f, facts, depth, used, [k for k in at]))
    return step(f, facts, depth, used, neg)


def step(f, facts, depth, used, neg):
    if len(used) >= 4 or depth > 6 or not neg:
        return False
    at, c = f
    cands = list(fact_forms(facts)) if facts else []
    for k in list(at):
        cands += own_forms(k)
    k0 = neg[0]
    for i, (g, d) in enumerate(cands):
        if (frozenset(g.items()), d) in used:
            continue
        if at[k0] < 0 and g.get(k0, 0) >= 0 or at[k0] > 0 and g.get(k0, 0) <= 0:
            continue
        if nonneg((comb(at, g, -1), c - d), facts, depth + 1, used + ((frozenset(g.items()), d),)):
            return True
    return False


def own_forms(k):
    """what holds of an atom by what it is"""
    out = []
    if k.op == 'elem' and k.a[0].op == 'adt' and k.a[0].a[1] == 'Range':
        d = dict(k.a[0].a[2])
        (a, c), (b, e) = lin(d['start'], (), 9), lin(d['end'], (), 9)
        out.append((comb({k: 1}, a, -1), -c))
        out.append((comb(b, {k: 1}, -1), e - 1))
    if k.op == 'elem' and k.a[0].op == 'call' and k.a[0].a[0] == 'RangeInclusive::new' and len(k.a[0].a) == 3:
        (a, c), (b, e) = lin(k.a[0].a[1], (), 9), lin(k.a[0].a[2], (), 9)
        out.append((comb({k: 1}, a, -1), -c))
        out.append((comb(b, {k: 1}, -1), e))
    if k.op == 'call' and k.a[0] == 'min' and len(k.a) == 3:
        for x in k.a[1:]:
            a, c = lin(x, (), 9)
            out.append((comb(a, {k: 1}, -1), c))
    if k.op == 'call' and k.a[0] == 'max' and len(k.a) == 3:
        for x in k.a[1:]:
            a, c = lin(x, (), 9)
            out.append((comb({k: 1}, a, -1), -c))
    if k.op in ('narrow', 'cast'):       # of an unsigned value: never above it
        a, c = lin(k.a[1], (), 9)
        out.append((comb(a, {k: 1}, -1), c))
    if k.op == 'bin' and k.a[0] == 'Rem' and k.a[2].op == 'const' and k.a[2].a[1]:
        out.append(({k: -1}, k.a[2].a[1] - 1))
    return out


def below(x, y, facts, strict=True):
    """x < y (x <= y) under the facts"""
    (a, c), (b, d) = lin(x, facts), lin(y, facts)
    return nonneg((comb(b, a, -1), d - c - (1 if strict else 0)), facts)


def same_keys(x, y, seen=frozenset()):
    """the maps x and y have the same keys: filled in step"""
    if x is y or (x, y) in seen:
        return True
    seen = seen | {(x, y)}
    if x.op == 'call' and y.op == 'call' and x.a[0].endswith('::new') and y.a[0].endswith('::new'):
        return True
    if x.op == 'mut' and y.op == 'mut' and x.a[0] == y.a[0] == 'insert' and x.a[1] == y.a[1] == 0 and len(x.a) == len(y.a) == 5:
        return x.a[3] is y.a[3] and same_keys(x.a[2], y.a[2], seen)
    if x.op == 'phi' and y.op == 'phi':
        xs, ys = PHI_ALTS.get(x, ()), PHI_ALTS.get(y, ())
        return len(xs) == len(ys) and all(any(same_keys(a, b, seen) for b in ys) for a in xs) and all(any(same_keys(a, b, seen) for a in xs) for b in ys) \
            and step_like(x, y)
    return False


def step_like(x, y):
    """the joins belong to the same place of the program"""
    return x not in PHI_ROW or y in PHI_ROW and PHI_ROW[x][0] == PHI_ROW[y][0]


def present(m, k, facts, seen=frozenset()):
    """the map m has the key k"""
    if (mk('has', m, k), True) in facts or (mk('made', m, k), True) in facts or m in seen:
        return True
    if m.op == 'mut' and m.a[0] == 'insert' and m.a[1] == 0:
        return m.a[3] is k or present(m.a[2], k, facts, seen)
    if m.op == 'mut' and m.a[0] == 'store' and m.a[1] == 0:
        return m.a[3] is k or present(m.a[2], k, facts, seen)
    if m.op == 'phi' and PHI_ALTS.get(m):
        g = PHI_GATE.get(m, {})
        return all(present(x, k, facts | g.get(x, frozenset()), seen | {m}) for x in PHI_ALTS[m])
    return False


def infeasible(facts, inv=()):
    """the facts contradict what a joined value can be, or each other"""
    for f, v in facts:
        if f.op == 'has' and not v and present(f.a[0], f.a[1], facts):
            return True
        if f.op in ('is', 'istest') and v != (f.a[1] == 'Some') and f.a[0].op == 'field' and kept(f.a[0], inv):
            return True
        if f.op in ('is', 'istest') and f.a[0].op == 'phi' and f.a[1] in OTHER:
            t, want = f.a[0], f.a[1] if v else OTHER[f.a[1]]
            alts = PHI_ALTS.get(t, ())
            if alts and all(ruled_out(x, want, PHI_GATE.get(t, {}).get(x, frozenset()), frozenset({t})) for x in alts):
                return True
    return False


def kept(t, inv):
    """the field is one of those that hold a value at all times"""
    return t.op == 'field' and any(t.a[1] == f and pred(t.a[0]) for f, pred in inv)


OTHER = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok'}


def ruled_out(x, want, gate, seen):
    if x in seen:
        return True
    if x.op == 'adt':
        return x.a[1] != want
    if (mk('istest', x, want), False) in gate or (mk('istest', x, OTHER.get(want, '?')), True) in gate or (mk('is', x, want), False) in gate or (mk('is', x, OTHER.get(want, '?')), True) in gate:
        return True
    if x.op == 'phi' and PHI_ALTS.get(x):
        return all(ruled_out(y, want, PHI_GATE.get(x, {}).get(y, frozenset()), seen | {x}) for y in PHI_ALTS[x])
    return False


def unstored(c):
    """a list without the writes to its elements"""
    s, w, base = set(), [c], []
    while w:
        x = w.pop()
        if x in s:
            continue
        s.add(x)
        if x.op == 'mut' and x.a[0] == 'store' and x.a[1] == 0:
            w.append(x.a[2])
        elif x.op == 'phi' and PHI_ALTS.get(x) and (any(y.op == 'mut' and y.a[0] == 'store' and y.a[1] == 0 for y in PHI_ALTS[x]) or all(y.op == 'phi' for y in PHI_ALTS[x])):
            w += PHI_ALTS[x]
        else:
            base.append(x)
    return base[0] if len(base) == 1 else c


class Ev:
    def __init__(self, r, e, inv=()):
        self.r, self.e, self.inv = r, e, inv
        self._cf = self._x = None

    @property
    def cf(self):
        if self._cf is None:
            self._cf = frozenset(canon_facts(self.r.N, self.e.facts)) | self.extra()
        return self._cf

    def extra(self):
        """what else holds there: the loops the place is in are over something"""
        if self._x is None:
            e = self.e
            done = {f.a[0] for f, v in e.facts if f.op == 'done' and v}
            cs = set()
            for v in e.state.mem.values():
                while v.op == 'field':
                    v = v.a[0]
                if v.op == 'elem' and len(v.a) == 2 and v.a[1] not in done and not (isinstance(v.a[1], tuple) and v.a[1] and v.a[1][0] in ('each', 'prev')):
                    cs.add(v.a[0])
            z = mk('const', 'int', 0)
            self._x = frozenset((mk('lt', z, mk('call', 'len', x)), True) for c in cs if c.op != 'adt' for x in (c, self.r.cv(c)))
            for c in cs:
                if c.op == 'adt' and c.a[1] == 'Range':
                    for x in (c, self.r.cv(c)):
                        d = dict(x.a[2])
                        self._x |= {(mk('lt', d['start'], d['end']), True)}
            if any(n == 'deals' for n, p in self.inv):
                s = set()
                for a in e.args:
                    for b in subterms_np(a):
                        if b.op == 'field' and b.a[1] == 'deals':
                            s.add(b.a[0])
                for x in s:
                    n = mk('call', 'len', mk('field', x, 'deals'))
                    for y in (mk('field', x, 'verifiers'), mk('field', mk('field', x, 'aggregator'), 'verifiers')):
                        self._x |= {(mk('eq', n, mk('call', 'len', y)), True)}
        return self._x

    def both(self, f):
        """f(under raw terms and facts) or f(under canonical ones)"""
        e, r = self.e, self.r
        return f(list(e.args), e.facts | self.extra()) or f([r.cv(a) for a in e.args], self.cf)

    def safe(self):
        e = self.e
        if infeasible(e.facts, self.inv):
            return True
        if e.name == 'bounds':
            return self.both(lambda a, fs: below(a[0], a[1], fs))
        if e.name in ('div0', 'rem0'):
            return self.both(lambda a, fs: below(mk('const', 'int', 0), a[0], fs))
        if e.name == 'index':
            return self.both(lambda a, fs: self.index(a[0], a[1], fs))
        if e.name == 'unwrap':
            return self.unwrap()
        if e.name == 'copy':
            def same(a, fs):
                xs = self.sizes(a[0], e.extra[0] if len(a) < 3 else '')
                if len(a) > 2:
                    d = dict(a[2].a[2])
                    lo, his = d.get('start', mk('const', 'int', 0)), [d['end']] if 'end' in d else self.sizes(a[0], '')
                    xs = [mk('bin', 'Sub', hi, lo) for hi in his]
                return any(below(x, y, fs, False) and below(y, x, fs, False) for x in xs for y in self.sizes(a[1], e.extra[1]))
            return self.both(same)
        if e.name == 'limit':
            n = e.clean.split('::')[-1]
            if n in ('from_slice', 'clone_from_slice'):
                bits = re.findall(r'\bB([01])\b', e.extra)
                k = mk('const', 'int', int(''.join(bits) or '0', 2))
                return self.both(lambda a, fs: any(below(x, k, fs, False) and below(k, x, fs, False) for x in self.sizes(a[0], '')))
            if n in ('insert', 'split_off', 'rotate_left', 'rotate_right'):
                return self.both(lambda a, fs: below(a[1], mk('call', 'len', a[0]), fs, False))
            if n in ('chunks', 'chunks_exact', 'windows', 'step_by'):
                return self.both(lambda a, fs: below(mk('const', 'int', 0), a[1], fs))
            if n in ('remove', 'swap_remove', 'drain'):
                return self.both(lambda a, fs: self.index(a[0], a[1], fs))
        return False

    def sizes(self, c, ty):
        """terms for the length of the list c"""
        ar = re.match(r"&?('\S+ )?(mut )?\[.*; (\d+)\]$", ty or '')
        if ar:
            return [mk('const', 'int', int(ar.group(3)))]
        out = [c, unstored(c)]
        k = self.r.cv(out[1])
        if k.op == 'bytes':
            out.append(k)
        return [mk('call', 'len', x) for x in dict.fromkeys(out)]

    def index(self, c, i, fs):
        Ls = self.sizes(c, self.e.extra)
        if c.op == 'call' and c.a[0] == 'DistKeyShare::commitments' and i.op == 'const' and i.a[1] == 0 and any(n == 'commitments' for n, p in self.inv):
            return True         # the node's own keys: the caller's choice, not a message
        if 'Map<' in (self.e.extra or '') or 'HashMap' in (self.e.extra or ''):
            if (C('has', c, i), True) in fs or present(c, i, fs):
                return True
            if c.op == 'mut' and c.a[0] == 'insert' and i in c.a[3:4]:
                return True
            k = i.a[0] if i.op == 'field' and i.a[1] == '0' else i
            return k.op == 'elem' and same_keys(k.a[0], c)
        if i.op == 'adt' and 'Range' in i.a[1]:
            d = dict(i.a[2])
            if i.a[1] == 'RangeFull':
                return True
            if 'Inclusive' in i.a[1]:
                return False
            lo = d.get('start', mk('const', 'int', 0))
            if 'end' in d:
                return below(lo, d['end'], fs, False) and any(below(d['end'], L, fs, False) for L in Ls)
            return any(below(lo, L, fs, False) for L in Ls)
        return any(below(i, L, fs, 'split_at' not in (self.e.clean or '')) for L in Ls)

    def unwrap(self):
        e, r = self.e, self.r
        t, v = e.args[0], e.args[1].a[1]
        if t.op == 'adt':
            return t.a[1] == v
        for vs in (OPT, RES):
            if v in vs:
                alts = [x for s, x in r.an.variants(e.state, t, vs)]
                if alts == [v]:
                    return True
        if t.op == 'phi' and PHI_ALTS.get(t) and all(x.op == 'adt' and x.a[1] == v for x in PHI_ALTS[t]):
            return True
        if v == 'Some' and kept(t, self.inv):
            return True
        c = r.cv(t)
        if v == 'Ok' and t.op == 'call' and t.a[0].split('<')[0] in INFALLIBLE:
            return True
        if c.op == 'call' and c.a[0] == 'get' and len(c.a) == 3 and (C('has', c.a[1], c.a[2]), v == 'Some') in self.cf:
            return True
        return False


CUR = [None]


def wraps(t, facts):
    """adding to the term may wrap around: a word that came from outside and was not compared before"""
    if t.op not in ('field', 'param') or declared(t) not in ('usize', 'u64'):
        return False
    return not any(f.op == 'lt' and f.a[0 if v else 1] is t or f.op == 'eq' and v and t in f.a for f, v in facts)


def declared(t):
    """the declared type of a parameter or a field of one, without references"""
    r = CUR[0]
    path = []
    while t.op == 'field':
        path.append(t.a[1])
        t = t.a[0]
    if t.op != 'param' or r is None:
        return None
    ty = r.body.locals[t.a[0]]['ty'] if t.a[0] < len(r.body.locals) else ''
    for n in reversed(path):
        from program import strip_generics
        ty = strip_generics(re.sub(r"^(&('\S+ )?(mut )?)+", '', ty))
        a = r.ctx.P.adts.get(ty)
        fs = [f for f in a['variants'][0]['fields'] if f['n'] == n] if a and len(a['variants']) == 1 else []
        if not fs:
            return None
        ty = fs[0]['ty']
    return re.sub(r"^(&('\S+ )?(mut )?)+", '', ty)


def fixed_len(t):
    """the length of an array that is a field of a parameter, from the declared types"""
    ar = re.match(r"\[[^\[\]]*; (\d+)\]$", declared(t) or '')
    return int(ar.group(1)) if ar else None


def sites(r, inv=()):
    """the places of a run that panic unless something holds, and whether it does on every path"""
    out = {}
    CUR[0] = r
    for e in r.events:
        if e.kind != 'panic':
            continue
        k = (e.fn, e.file, e.line, e.name)
        s = Ev(r, e, inv).safe()
        n, bad = out.get(k, (0, []))
        out[k] = (n + 1, bad + ([] if s else [e]))
    return out


# ---------------------------------------------------------------- what stays true of the kept state
def changers(P, adt, field):
    """the functions that write a field of a struct, borrow it for writing, or build the struct: (body, how, line)"""
    def names(p):
        return [x for x in p[1] if x[0] == 'f' and x[2] == field and x[3] == adt]
    for b in (P.bodies.values() if isinstance(P.bodies, dict) else P.bodies):
        if '::test' in b.clean or '/test' in b.loc[0]:
            continue
        for bl in b.blocks:
            if bl.get('cl'):
                continue
            for st in bl['st']:
                if st['s'] != '=':
                    continue
                v = st['v']
                if names(st['d']):
                    yield b, 'write', st['l']
                elif v['r'] in ('ref', 'addr', 'rawptr') and v.get('m') and names(v['p']):
                    yield b, 'borrow', st['l']
                elif v['r'] == 'agg' and v.get('adt') == adt:
                    yield b, 'build', st['l']
            te = bl['te']
            if te['t'] == 'call' and te.get('d') and names(te['d']):
                yield b, 'write', te['l']


PV, RV = 'share::vss::pedersen::vss::', 'share::vss::rabin::vss::'
PD, RD = 'share::dkg::pedersen::dkg::DistKeyGenerator::', 'share::dkg::rabin::dkg::DistKeyGenerator::'
G = 'group::edwards25519::'
POLY = frozenset(['share::poly::PriPoly::mul', 'share::poly::PriPoly::add'])
ROOTS = (
    # signatures
    'sign::schnorr::schnorr_sig::verify', 'sign::schnorr::schnorr_sig::verify_with_checks', 'sign::eddsa::eddsa_sig::verify', 'sign::eddsa::eddsa_sig::verify_with_checks',
    'sign::dss::dss_sig::verify', 'sign::dss::dss_sig::DSS::process_partial_sig', 'sign::dss::dss_sig::DSS::signature', 'sign::dss::dss_sig::DSS::enough_partial_sig',
    'sign::eddsa::eddsa_sig::EdDSA as BinaryUnmarshaler::unmarshal_binary',
    # encodings
    G + 'point::Point as BinaryUnmarshaler::unmarshal_binary', G + 'scalar::Scalar as BinaryUnmarshaler::unmarshal_binary',
    G + 'point::Point as PointCanCheckCanonicalAndSmallOrder::is_canonical', G + 'point::Point as PointCanCheckCanonicalAndSmallOrder::has_small_order',
    G + 'scalar::Scalar as ScalarCanCheckCanonical::is_canonical', G + 'point::Point as Point::data', 'encoding::encodings::unmarshal_binary',
    # encryption
    'encrypt::ecies::ecies_impl::decrypt', 'dh::dh_impl::Dh::decrypt', 'dh::dh_impl::Dh::aes_decrypt',
    # shares
    'share::poly::recover_secret', 'share::poly::recover_commit', 'share::poly::recover_pri_poly', 'share::poly::recover_pub_poly', 'share::poly::PriPoly::mul',
    'share::poly::PriPoly::add', 'share::poly::PubPoly::check', 'share::poly::PubPoly::eval', 'share::poly::PubPoly::add', 'share::poly::PubPoly::equal',
    # verifiable secret sharing
) + tuple(v + n for v in (PV, RV) for n in (
    'Dealer::process_response', 'Verifier::process_encrypted_deal', 'Verifier::process_response', 'Verifier::process_justification', 'Verifier::deal', 'Verifier::set_timeout',
    'Dealer::set_timeout', 'Dealer::secret_commit', 'recover_secret')) + tuple(PD + n for n in (
        'process_deal', 'process_response', 'process_justification', 'set_timeout', 'threshold_certified', 'certified', 'qual', 'is_in_qual')) + tuple(RD + n for n in (
            'process_deal', 'process_response', 'process_justification', 'process_secret_commits', 'process_complaint_commits', 'process_reconstruct_commits', 'set_timeout',
            'certified', 'qual', 'is_in_qual', 'finished', 'secret_commits'))


# not part of the interface: what calls them is analysed as well
OPTIONAL = ('sign::schnorr::schnorr_sig::verify_with_checks',)


def _group_low(clean, c):
    return clean.startswith(G + 'fe::fe_') and not clean.endswith('fe_from_bytes')


def X03(ctx):
    seen = set()
    for name in ROOTS:
        kw = {}
        if name.endswith('Point as BinaryUnmarshaler::unmarshal_binary'):
            kw = {'opaque_pred': _group_low}
        elif name.endswith(('Point::data', 'has_small_order')):
            kw = {'opaque_pred': lambda c, _: c.startswith(G + 'ge::')}
        if name in OPTIONAL and ctx.P.find(name) is None:
            continue
        try:
            r = ctx.run(name, opaque=frozenset({SCH_V, SCH_S}) | POLY - {name}, **kw)
        except Missing:
            continue
        r.N.keep32 = True
        inv = []
        if name.startswith((PV, PD, RD)):
            inv.append(('aggregator', lambda b: True))
        if name.startswith((PV, PD, RV, RD)):
            inv.append(('deals', lambda b: False))
        if name.startswith('sign::dss::'):
            inv.append(('commitments', lambda b: False))
        S = sites(r, inv)
        ctx.ob('crash.analysed', name, bool(r.exits), 'no exit of %s was reached by the analysis' % name)
        for (fn, file, line, kind), (n, bad) in sorted(S.items(), key=lambda kv: str(kv[0])):
            c = '%s: %s in %s' % (name.split('::', 1)[-1], kind, fn.split('::')[-1] if fn else '?')
            seen.add((file, line, kind))
            ctx.ob('crash.site', c, not bad, '%s can panic while %s handles its input: nothing on the way there excludes it (%s %s)' %
                   (fn, name, kind, ', '.join(show(r.cv(a))[:80] for a in bad[0].args) if bad else ''), '%s:%s' % (file, line))
    # what the above relies on
    for v, mod in (('pedersen', PV), ('rabin', RV)):
        dealer_lists(ctx, v, mod)
        aggregators(ctx, v, mod)
    return len(seen)


def _part_of(P, b, name):
    """b is the operation or is only ever reached through it"""
    work, seen = [b.path], set()
    while work:
        p = work.pop()
        if p in seen or p not in P.bodies:
            continue
        seen.add(p)
        if P.bodies[p].clean.split('::{')[0].endswith('::' + name):
            continue
        cs = [q for q, l in _calls(P).items() if q != p and any(x == p for x, _ in l)]
        if not cs:
            return False
        work.extend(cs)
    return True


def dealer_lists(ctx, v, mod):
    """a dealer has one deal for each verifier, now and later"""
    r = ctx.run(mod + 'new_dealer')
    for e in r.oks():
        d = r.an.deep(e.st, e.pay_raw)
        fs = frozenset(e.st.facts) | e.facts if hasattr(e, 'facts') else frozenset(e.st.facts)
        cf = frozenset(canon_facts(r.N, e.st.facts)) | frozenset(e.st.facts)
        CUR[0] = r
        n = [r.an.field(d, 'deals'), r.an.field(d, 'verifiers'), r.an.field(r.an.field(d, 'aggregator'), 'verifiers')]
        for k, what in ((1, 'verifiers'), (2, 'aggregator.verifiers')):
            ok = any(below(mk('call', 'len', x), mk('call', 'len', y), cf, False) and below(mk('call', 'len', y), mk('call', 'len', x), cf, False)
                     for x in (n[0], r.cv(n[0])) for y in (n[k], r.cv(n[k])))
            ctx.ob('crash.deals', mod + 'new_dealer/' + what, ok, 'a new dealer may have more verifiers than deals: a response for one of the others would be looked up in vain',
                   '%s:%s' % tuple(r.body.loc))
    for b, how, line in list(changers(ctx.P, mod + 'Dealer', 'deals')) + list(changers(ctx.P, mod + 'Dealer', 'verifiers')):
        if how == 'build' and ('as Clone::' in b.clean or 'as Default::' in b.clean or 'Deserialize' in b.clean or b.clean == mod + 'new_dealer'):
            continue
        ok = how != 'build' and keeps_length(ctx, b)
        ctx.ob('crash.deals', '%s %s' % (b.clean, how), ok, '%s may change how many deals or verifiers a dealer has' % b.clean, '%s:%s' % (b.loc[0], line))
    for b, how, line in changers(ctx.P, mod + 'Aggregator', 'verifiers'):
        if how == 'build' or b.clean.startswith('share::dkg::pedersen::dkg::DistKeyGenerator::') and _part_of(ctx.P, b, 'process_response'):
            continue        # aggregators built elsewhere belong to verifiers or to the old group, not to a dealer
        ctx.ob('crash.deals', '%s %s' % (b.clean, how), False, '%s changes the verifiers an aggregator knows' % b.clean, '%s:%s' % (b.loc[0], line))


def keeps_length(ctx, b):
    r = ctx.run(b.clean)
    CUR[0] = r
    me = r.p(1)
    for e in r.exits:
        for n in ('deals', 'verifiers'):
            x = r.an.field(e.final_raw(me), n)
            if unstored(x) is not mk('field', me, n):
                return False
    return bool(r.exits)


def holds(t, gate=frozenset(), seen=frozenset()):
    """the optional field value t is Some, given that the one the function started with was"""
    if t in seen:
        return True
    if t.op == 'adt':
        return t.a[1] == 'Some'
    if t.op == 'phi' and PHI_ALTS.get(t):
        g = PHI_GATE.get(t, {})
        return all(holds(x, g.get(x, frozenset()), seen | {t}) for x in PHI_ALTS[t])
    if t.op == 'upd' or t.op == 'mut' and t.a[0] in ('store', 'upd'):
        return holds(t.a[0] if t.op == 'upd' else t.a[2], gate, seen)
    if (mk('is', t, 'Some'), True) in gate or (mk('istest', t, 'None'), False) in gate or (mk('istest', t, 'Some'), True) in gate:
        return True
    if t.op == 'field' and t.a[1] == 'aggregator':
        b = t.a[0]
        while b.op in ('field', 'index'):
            b = b.a[0]
        return b.op == 'param'
    return False


def aggregators(ctx, v, mod):
    """verifiers that are asked for their aggregator have one"""
    adt = mod + 'Verifier'
    if v == 'pedersen':
        r = ctx.run(mod + 'new_verifier')
        for e in r.oks():
            ctx.ob('crash.aggregator', mod + 'new_verifier', holds(r.an.field(r.an.deep(e.st, e.pay_raw), 'aggregator')), 'a new verifier may have no aggregator',
                   '%s:%s' % tuple(r.body.loc))
    for b, how, line in changers(ctx.P, adt, 'aggregator'):
        if how == 'build':
            ok = 'as Clone::' in b.clean or 'as Default::' in b.clean or 'Deserialize' in b.clean or b.clean == mod + 'new_verifier'
        else:
            r = ctx.run(b.clean)
            pi = [i for i in range(1, len(r.body.locals)) if r.body.locals[i].get('adt') == adt and i <= r.body.argc]
            ok = bool(pi) and all(holds(r.an.field(e.final_raw(r.p(i)), 'aggregator'), frozenset(e.st.facts)) for e in r.exits for i in pi)
        ctx.ob('crash.aggregator', '%s %s' % (b.clean, how), ok, '%s may leave a verifier without an aggregator' % b.clean, '%s:%s' % (b.loc[0], line))
    if v == 'rabin':
        for b, how, line in changers(ctx.P, 'share::dkg::rabin::dkg::DistKeyGenerator', 'verifiers'):
            if 'as Clone::' in b.clean or 'as Default::' in b.clean or 'Deserialize' in b.clean:
                continue
            r = ctx.run(b.clean)
            if how == 'build':
                ok = bool(r.oks())
                for e in r.oks():
                    m = r.an.field(r.an.deep(e.st, e.pay_raw), 'verifiers')
                    ok = ok and m.op == 'call' and m.a[0].endswith('::new')
            else:
                ok = bool(r.exits)
                for e in r.exits:
                    ok = ok and map_holds(r, r.an.field(e.final_raw(r.p(1)), 'verifiers'), frozenset(e.st.facts))
            ctx.ob('crash.aggregator', '%s %s' % (b.clean, how), ok, '%s may keep a verifier that has no aggregator yet' % b.clean, '%s:%s' % (b.loc[0], line))


def map_holds(r, m, facts, seen=frozenset()):
    if m in seen:
        return True
    if m.op == 'mut' and m.a[0] in ('insert', 'store') and m.a[1] == 0:
        return holds(r.an.field(m.a[4], 'aggregator'), facts) and map_holds(r, m.a[2], facts, seen)
    if m.op == 'phi' and PHI_ALTS.get(m):
        g = PHI_GATE.get(m, {})
        return all(map_holds(r, x, g.get(x, frozenset()), seen | {m}) for x in PHI_ALTS[m])
    while m.op == 'field':
        m = m.a[0]
    return m.op == 'param'
