"""Polynomials and secret sharing: evaluation, arithmetic and Lagrange interpolation."""
from lib import *
from lib import Exit
from norm import B, p_atom, p_add, p_mul, p_const, l_scale
import absint
from absint import loops_in

M = 'share::poly::'
OPEN = frozenset(PROTO) - {M + 'PriPoly::threshold', M + 'PubPoly::threshold'}
XV = C('atom', 'X')


# ------------------------------------------------------------------ loop-carried values
class Acc:
    def __init__(self):
        self.inits = []     # lists of raw items a fresh value starts with
        self.cycles = []    # (raw items contributed by one iteration, gate)
        self.resets = []    # (items, gate): an iteration that starts over
        self.ok = True
        self.paths = []     # the loop-carried values an iteration passes through, parallel to cycles


def add_split(x):
    y = x
    if y.op == 'vf' and y.a[1] == 'Ok':
        y = y.a[0]
    if y.op == 'call' and y.a[0] in ('Add::add', M + 'PubPoly::add', M + 'PriPoly::add') and len(y.a) == 3:
        return [y.a[1], y.a[2]]
    if y.op == 'call' and y.a[0] == 'Point::add' and len(y.a) == 4:
        return [y.a[2], y.a[3]]
    if y.op == 'mut' and y.a[0] == 'AddAssign::add_assign':
        return [y.a[2], y.a[3]]


def inv_of(t):
    return mk('call', 'Scalar::inv', t, t)


def mul_split(x):
    if x.op == 'call' and x.a[0] in ('Mul::mul', M + 'PriPoly::mul') and len(x.a) == 3:
        return [x.a[1], x.a[2]]
    if x.op == 'call' and x.a[0] == 'Scalar::div' and len(x.a) == 4:
        return [x.a[2], inv_of(x.a[3])]
    if x.op == 'call' and x.a[0] == 'Scalar::set' and len(x.a) == 3:
        return [x.a[2]]
    if x.op == 'mut' and x.a[0] == 'MulAssign::mul_assign':
        return [x.a[2], x.a[3]]
    if x.op == 'call' and x.a[0] == 'Point::mul' and len(x.a) == 4 and x.a[3].op == 'adt' and x.a[3].a[1] == 'Some':
        return [x.a[2], x.a[3].a[2][0][1]]


def push_split(x):
    if x.op == 'mut' and x.a[0] == 'Vec::push' and x.a[1] == 0:
        return [x.a[2], x.a[3]]


def put_split(x):
    if x.op == 'mut' and x.a[0] in ('insert', 'HashMap::insert', 'BTreeMap::insert', 'store') and x.a[1] == 0 and len(x.a) == 5:
        return [x.a[2], mk('tuple', x.a[3], x.a[4])]


def unprev_f(g):
    return frozenset((unprev(f), v) for f, v in g)


def acc(run, t, split):
    """the loop that builds t: initial items, items per iteration, iterations that add nothing"""
    A = Acc()
    reach = {}

    def leaves(x):
        s = split(x)
        return [y for p in s for y in leaves(p)] if s else [x]

    def carried(p):
        """phi p takes part in a loop accumulating by this operation"""
        if p in reach:
            return reach[p]
        reach[p] = False
        seen, work = set(), [p]
        nxt = {}
        while work:
            q = work.pop()
            if q in seen:
                continue
            seen.add(q)
            nxt[q] = set()
            for v in PHI_ALTS.get(q, ()):
                for y in leaves(v):
                    if y.op == 'phi':
                        nxt[q].add(y)
                        work.append(y)
        # phis on (or leading to) a cycle
        def reaches(a, b):
            s, w = set(), list(nxt.get(a, ()))
            while w:
                q = w.pop()
                if q is b:
                    return True
                if q not in s:
                    s.add(q)
                    w += list(nxt.get(q, ()))
            return False
        cyc = {q for q in seen if reaches(q, q)}
        reach[p] = any(q in cyc or any(reaches(q, c) for c in cyc) for q in [p])
        return reach[p]

    def walk(x, items, gate, stack, first=False):
        ls = leaves(x)
        ph = [y for y in ls if y.op == 'phi' and carried(y)]
        rest = [y for y in ls if y not in ph][::-1]     # the last one added first
        if len(ph) > 1:
            A.ok = False
            return
        if not ph:
            if stack and stack[-1][1] and not first:
                pass
            A.inits.append((items + rest, gate, tuple(s[0] for s in stack)))
            return
        q = ph[0]
        for k, (s, n, gn) in enumerate(stack):
            if s is q:
                A.cycles.append((items[n:] + rest, frozenset(f for f in gate if f not in gn), q))
                A.paths.append([x[0] for x in stack[k:]])
                return
        if len(stack) > 12:
            A.ok = False
            return
        gs = PHI_GATE.get(q, {})
        alts = set(PHI_ALTS.get(q, ()))
        if q in gs:
            alts.add(q)
        it2 = items + rest
        for v in alts:
            walk(v, it2, gate | gs.get(v, frozenset()), stack + [(q, len(it2), gate)])
    if t.op != 'phi' and not split(t):
        return None
    walk(t, [], frozenset(), [])
    if not A.cycles:
        return None
    return A


class Loop:
    """summary: value = init (op) step for every iteration whose gate holds"""
    pass


def head_loop(q):
    """the loop a loop-carried value belongs to"""
    k = q.a[0]
    try:
        k = k[0]
        if len(k) == 3 and isinstance(k[1], int):
            return (k[0], k[1])
        if len(k) == 2 and k[1] == 'fej':
            return (k[0], 'fe')
    except (TypeError, IndexError):
        pass
    return None


def summarize(run, t, split, neutral):
    A = acc(run, t, split)
    if A is None or not A.ok:
        return None
    S = Loop()
    S.steps, S.keeps, S.heads = [], [], set()
    kl, S.hl = [], set()
    for items, g, q in A.cycles:
        it = [unprev(i) for i in items if not neutral(i)]
        g = unprev_f(g)
        (S.steps if it else S.keeps).append((it, g))
        kl.append(head_loop(q)) if not it else S.hl.add(head_loop(q))
        S.heads.add(q)
    # the value merely passing through some other loop is not an iteration of this one
    S.keeps = [k for k, l in zip(S.keeps, kl) if l is None or None in S.hl or l in S.hl]
    S.keeps = [(i, g) for i, g in S.keeps if any(plain_loops(f) for f, v in g)]
    if not S.steps:
        return None
    ck = lambda x: run.cv(unprev(x)).id
    keys = {tuple(sorted(ck(x) for x in i)) for i, g in S.steps}
    S.inits = []
    for items, g, ph in A.inits:
        it = [i for i in items if not neutral(i)]
        # a peeled iteration: the neutral start value and the items of one step (or, in a loop's own terms, the items of the last one)
        cur = list(it)
        again = True
        while again:
            again = False
            for want in keys:
                rest = list(cur)
                for w in want:
                    for x in rest:
                        if ck(x) == w:
                            rest.remove(x)
                            break
                if len(rest) == len(cur) - len(want) and (len(items) > len(it) or rest or any(isinstance(l, tuple) and l and l[0] == 'prev' for x in cur for l in loops_in(x))):
                    cur = rest
                    again = bool(cur)
                    break
        S.inits.append((cur, g))
    S.one = len(keys) == 1
    S.step = S.steps[0][0]
    S.loops = set.intersection(*[set().union(*[plain_loops(x) for x in i]) for i, g in S.steps])
    S.all_loops = set().union(*[plain_loops(x) for i, g in S.steps for x in i])
    return S


# ------------------------------------------------------------------ rational functions
def r_mul(a, b):
    return (p_mul(a[0], b[0]), p_mul(a[1], b[1]))


def r_eq(a, b):
    return p_add(p_mul(a[0], b[1]), p_mul(b[0], a[1]), -1) == {}


def rat(run, t, atom):
    """rational function of a raw scalar term; atom(t) names the leaves"""
    one = p_const(1)
    R = lambda x: rat(run, x, atom)
    if t.op == 'call':
        n, a = t.a[0], t.a[1:]
        if n in ('Add::add', 'Sub::sub', 'Scalar::sub'):
            x, y = (R(a[0]), R(a[1])) if n != 'Scalar::sub' else (R(a[1]), R(a[2]))
            k = 1 if n == 'Add::add' else -1
            return (p_add(p_mul(x[0], y[1]), p_mul(y[0], x[1]), k), p_mul(x[1], y[1]))
        if n == 'Mul::mul':
            return r_mul(R(a[0]), R(a[1]))
        if n in ('Neg::neg', 'Scalar::neg'):
            x = R(a[-1])
            return (p_add({}, x[0], -1), x[1])
        if n == 'Scalar::zero':
            return ({}, one)
        if n == 'Scalar::one':
            return (one, one)
        if n == 'Scalar::set':
            return R(a[1])
        if n == 'Scalar::set_int64' and a[1].op == 'const':
            return (p_const(a[1].a[1]), one)
        if n == 'Scalar::inv':
            x = R(a[1])
            return (x[1], x[0])
        if n == 'Scalar::div':
            x, y = R(a[1]), R(a[2])
            return (p_mul(x[0], y[1]), p_mul(x[1], y[0]))
    if t.op == 'mut' and t.a[1] == 0 and t.a[0] in ('AddAssign::add_assign', 'MulAssign::mul_assign', 'SubAssign::sub_assign'):
        return R(mk('call', {'A': 'Add::add', 'M': 'Mul::mul', 'S': 'Sub::sub'}[t.a[0][0]], t.a[2], t.a[3]))
    if t.op == 'adt' and t.a[0].endswith('PriPoly'):
        c = dict(t.a[2]).get('coeffs')
        if c is not None and c.op == 'array':
            n, x = ({}, one), (one, one)
            for y in c.a:
                q = r_mul(R(y), x)
                n = (p_add(p_mul(n[0], q[1]), p_mul(q[0], n[1])), p_mul(n[1], q[1]))
                x = r_mul(x, (p_atom(XV), one))
            return n
    return (p_atom(atom(t)), one)


def is_one(t):
    if t.op == 'call' and t.a[0] == 'Scalar::one':
        return True
    if t.op == 'adt' and t.a[0].endswith('PriPoly'):
        c = dict(t.a[2]).get('coeffs')
        return c is not None and c.op == 'array' and len(c.a) == 1 and is_one(c.a[0])
    return False


def is_nil(t):
    """a neutral element of addition"""
    if t.op == 'call' and t.a[0] in ('Scalar::zero', 'Point::null'):
        return True
    return empty_poly(t)


def empty_poly(t):
    if t.op == 'adt' and t.a[0].endswith(('PriPoly', 'PubPoly')):
        c = dict(t.a[2]).get('coeffs', dict(t.a[2]).get('commits'))
        return c is not None and empty_list(c)
    return False


def empty_list(t):
    return t.op == 'array' and not t.a or t.op == 'call' and t.a[0] in EMPTY


class Fail(Exception):
    pass


class Interp:
    """the interpolation a function computes, as: for every share i: const_i * prod over the other shares j of ratio(i, j)"""

    def __init__(self, ctx, run, shares):
        self.ctx, self.run, self.shares = ctx, run, shares
        self.maps = {}
        self.src = None

    # -- where shares come from
    def share_of(self, s):
        """s is one of the given shares that is present -> (True, loop)"""
        s = unprev(s)
        if s.op == 'vf' and s.a[1] == 'Some':
            e = s.a[0]
            if e.op == 'elem' and e.a[0] is self.shares:
                return ('direct', e.a[1])
        if s.op == 'elem':
            c = s.a[0]
            n = 0
            while c.op == 'mut' and c.a[0].split('::')[-1].startswith('sort') and c.a[1] == 0:
                c = c.a[2]
            if self.list_ok(c):
                return ('list', s.a[1])
            if c.op == 'call' and c.a[0] in ('flatten', 'collect') and c.a[1] is self.shares:
                return ('list', s.a[1])
        return None

    def only_absent_skipped(self, keeps):
        for items, g in keeps:
            cf = canon_facts(self.run.N, g)
            if not any(f.op == 'is' and f.a[1] == 'Some' and v is False and f.a[0].op == 'elem' and f.a[0].a[0] is self.run.cv(self.shares) for f, v in cf) and \
                    not any(f.op == 'is' and f.a[1] == 'None' and v and f.a[0].op == 'elem' for f, v in cf):
                return False
        return True

    def list_ok(self, c):
        if ('l', c) in self.maps:
            return self.maps[('l', c)]
        self.maps[('l', c)] = False
        ok = False
        if c.op == 'coll':
            e = c.a[0]
            ok = c.a[1] is self.shares and e.op == 'vf' and e.a[0].op == 'elem'
        else:
            S = summarize(self.run, c, push_split, empty_list)
            if S and S.one and len(S.step) == 1:
                sh = self.share_of(S.step[0])
                ok = bool(sh) and sh[0] == 'direct' and all(not i for i, g in S.inits) and self.only_absent_skipped(S.keeps)
        self.maps[('l', c)] = ok
        return ok

    def map_kind(self, m):
        """'x' (index -> index+1), 'y' (index -> share value) or None"""
        if m in self.maps:
            return self.maps[m]
        self.maps[m] = None
        k = self._map_kind(m)
        self.maps[m] = k
        return k

    def _map_kind(self, m):
        S = summarize(self.run, m, put_split, empty_list)
        if not S or not S.one or len(S.step) != 1 or any(i for i, g in S.inits):
            return None
        key, val = S.step[0].a
        key, val = uncast_raw(key), val
        if key.op != 'field' or key.a[1] != 'i':
            return None
        s = key.a[0]
        sh = self.share_of(s)
        if not sh or not self.only_absent_skipped(S.keeps):
            return None
        # the whole list was used unless the loop was left with enough shares
        if self.src is None:
            self.src = s
        elif self.src is not s:
            return None
        c = self.run.cv(val)
        if c is fld(self.run.cv(s), 'v'):
            return 'y'
        if c.op == 'int64' and int_lin(uncast_raw(c.a[0])) == int_lin(mk('bin', 'Add', fld(self.run.cv(s), 'i'), mk('const', 'int', 1))):
            return 'x'
        return None

    def key_loop(self, k):
        k = uncast_raw(k)
        if k.op == 'field' and k.a[1] == '0' and k.a[0].op == 'elem' and self.map_kind(k.a[0].a[0]):
            return k.a[0].a[1]
        return None

    def entry(self, t):
        """(kind, loop) of an entry value of one of the maps"""
        if t.op == 'field' and t.a[1] == '1' and t.a[0].op == 'elem':
            k = self.map_kind(t.a[0].a[0])
            return (k, t.a[0].a[1]) if k else None
        if t.op == 'index':
            k = self.map_kind(t.a[0])
            L = self.key_loop(t.a[1])
            return (k, L) if k and L is not None else None
        if t.op == 'vf' and t.a[1] == 'Some' and t.a[0].op == 'call' and t.a[0].a[0] in ('HashMap::get', 'get', 'BTreeMap::get'):
            k = self.map_kind(t.a[0].a[1])
            L = self.key_loop(t.a[0].a[2])
            return (k, L) if k and L is not None else None
        return None

    def atom(self, t):
        e = self.entry(t)
        if e:
            return C('atom', e[0], repr(e[1]))
        raise Fail('a value that is neither a share nor its x coordinate enters the interpolation: %s' % show(t)[:120])

    # -- the product for one share
    def factors(self, t, inv, out):
        one = p_const(1)
        if t.op == 'call' and t.a[0] == 'Scalar::inv':
            return self.factors(t.a[2], not inv, out)
        if t.op == 'vf' and t.a[1] == 'Ok' and t.a[0].op == 'call' and t.a[0].a[0] == M + 'PriPoly::mul':
            t = t.a[0]
        if t.op == 'call' and t.a[0] == M + 'PriPoly::commit' and len(t.a) == 3 and t.a[2].op == 'adt' and t.a[2].a[1] == 'Some':
            self.factors(t.a[1], inv, out)
            return self.factors(t.a[2].a[2][0][1], inv, out)
        sc = self.scaled(t)
        if sc:
            for x in sc:
                self.factors(x, inv, out)
            return
        if t.op == 'phi':
            S = summarize(self.run, t, mul_split, is_one)
            if S is None:
                raise Fail('unrecognised loop in the interpolation')
            if not S.one:
                raise Fail('the factors multiplied differ between iterations')
            inits = {tuple(sorted(x.id for x in i)): i for i, g in S.inits}
            if len(inits) != 1:
                raise Fail('a product does not start from one fixed value')
            for x in list(inits.values())[0]:
                self.factors(x, inv, out)
            r = (one, one)
            L = None
            outer = {repr(l) for l in self.outer}
            for x in S.step:
                r = r_mul(r, rat(self.run, x, self.atom))
            ls = {l for l in S.all_loops if l not in self.outer and (repr(l) in {a.a[1] for p in r for m in p for a in m if a.op == 'atom' and len(a.a) == 2})}
            if len(ls) != 1:
                raise Fail('a product does not range over the shares')
            L = ls.pop()
            if inv:
                r = (r[1], r[0])
            for items, g in S.steps:
                if not self.differ(g, L, True):
                    raise Fail('a factor is multiplied in for the share itself, or for some shares only')
            for items, g in S.keeps:
                if not self.differ(g, L, False):
                    raise Fail('a factor is left out for another share')
            if not S.keeps and not S.steps:
                raise Fail('no product')
            out.append((L, r))
            return
        s = mul_split(t)
        if s and not (t.op == 'call' and t.a[0] == 'Scalar::set' and False):
            for x in s:
                self.factors(x, inv, out)
            return
        r = rat(self.run, t, self.atom) if not is_one(t) else (one, one)
        out.append((None, (r[1], r[0]) if inv else r))

    def differ(self, g, L, val):
        """the facts say (val) that the shares visited by L and by the outer loop differ (or are the same)"""
        g = canon_facts(self.run.N, g)
        for f, v in g:
            if f.op == 'eq' and v is (not val):
                ks = [self.canon_key(x) for x in f.a]
                if None not in ks and {repr(k) for k in ks} >= {repr(L)} and any(k in self.outer for k in ks):
                    return True
        return False

    def canon_key(self, c):
        """loop of a canonical key/x term"""
        if c.op == 'field' and c.a[1] in ('0', '1') and c.a[0].op == 'elem':
            return c.a[0].a[1]
        if c.op == 'index':
            return self.canon_key(c.a[1])
        if c.op == 'elem' and c.a[0].op == 'call' and c.a[0].a[0] == 'keys':
            return c.a[1]
        return None

    def scaled(self, t):
        """a polynomial whose coefficients are those of another one times a scalar -> [poly, scalar factors..]"""
        base = None
        if t.op == 'upd' and set(dict(t.a[1])) <= {'coeffs', 'g'} and 'coeffs' in dict(t.a[1]):
            x = dict(t.a[1])['coeffs']
        elif t.op == 'adt' and t.a[0].endswith('PriPoly'):
            x = dict(t.a[2])['coeffs']
        else:
            return None
        if x.op == 'array':
            return None
        out = []
        n = 0
        while n < 6:
            n += 1
            if x.op == 'field' and x.a[1] == 'coeffs':
                return [x.a[0]] + out
            y = self.scale_step(x)
            if y is None:
                raise Fail('coefficients of the basis polynomial are not all scaled by one factor')
            x, s = y
            out += s
        return None

    def scale_step(self, x):
        if x.op == 'coll':
            e, c, L = x.a
            fs = mul_leaves(e)
            hit = [f for f in fs if f.op == 'elem' and f.a[0] is c and f.a[1] == L]
            if len(hit) == 1 and not any(L in loops_in(f) for f in fs if f is not hit[0]):
                return c, [f for f in fs if f is not hit[0]]
            return None
        A = acc(self.run, x, put_split)
        if A and A.ok:
            heads = [q for i, g, q in A.cycles]
            bases = {y for i, g, ph in A.inits for y in i if y.op != 'tuple'}
            if len(bases) != 1 or any(sum(y.op != 'tuple' for y in i) != 1 for i, g, ph in A.inits) or any(not i or any(y.op != 'tuple' for y in i) for i, g, q in A.cycles):
                return None
            x0 = bases.pop()
            own = [x0, x] + heads
            ss = {}
            for it in [i for i, g, q in A.cycles] + [i for i, g, ph in A.inits]:
                for y in it:
                    if y.op != 'tuple':
                        continue
                    ix, val = unprev(y.a[0]), unprev(y.a[1])
                    if ix.op != 'elem' or not full_range(self.run, ix.a[0], own):
                        return None
                    fs = mul_leaves(val)
                    hit = [f for f in fs if f.op == 'index' and f.a[1] is ix and f.a[0] in own or f.op == 'elem' and f.a[1] == ix.a[1] and f.a[0] in own]
                    if len(hit) != 1:
                        return None
                    rest = [f for f in fs if f is not hit[0]]
                    ss.setdefault(ix.a[1], {})[tuple(sorted(f.id for f in rest))] = rest
            if any(len(d) != 1 for d in ss.values()):
                return None
            return x0, [f for d in ss.values() for r in d.values() for f in r]
        S = summarize(self.run, x, push_split, empty_list)
        if S and S.one and len(S.step) == 1 and not S.keeps and all(not i for i, g in S.inits):
            fs = mul_leaves(S.step[0])
            hit = []
            for f in fs:
                if f.op == 'elem':
                    hit.append((f, f.a[0]))
                elif f.op == 'index' and f.a[1].op == 'elem' and full_range(self.run, f.a[1].a[0], [f.a[0]]):
                    hit.append((f, f.a[0]))
            hit = [h for h in hit if h[1].op == 'field' and h[1].a[1] == 'coeffs' or h[1].op in ('phi', 'coll')]
            if len(hit) == 1:
                return hit[0][1], [f for f in fs if f is not hit[0][0]]
        return None

    def check(self, val, want_const, want_ratio, facts, rule, fn):
        """val = sum over the shares of const * product over the others of ratio"""
        ctx, run = self.ctx, self.run
        S = summarize(run, val, add_split, is_nil)
        if S is None:
            ctx.bad(rule, fn, 'the result is not recognised as a sum over the shares')
            return
        ok = True
        try:
            loops = set()
            for items, g in S.steps:
                if len(items) != 1:
                    raise Fail('an iteration adds more than one term')
                loops |= {l for l in plain_loops(items[0])}
            # iterations that start over are only those that find an empty sum
            for i, g in S.inits:
                if i and not (len(i) == 1 and self.replaces_empty(i[0], g, S)):
                    raise Fail('the sum does not start from zero')
            if S.keeps:
                raise Fail('some shares are left out of the sum')
            done = {f.a[0] for f, v in facts if f.op == 'done' and v}
            for items, g in S.steps:
                self.term(items[0], want_const, want_ratio, done)
        except Fail as e:
            ok = False
            ctx.bad(rule, fn, 'interpolation: %s' % e)
        if ok:
            ctx.ob(rule, fn, True)

    def replaces_empty(self, item, g, S):
        if not any(unprev(item) is i[0] for i, _ in S.steps):
            return False
        # adding happens exactly when the sum is not the empty polynomial, so starting over happens only when it is
        def nonempty(f, v):
            if f.op == 'is_empty' or f.op == 'call' and f.a[0] == 'is_empty':
                x = f.a[-1]
                return not v and x.op == 'field' and x.a[1] in ('coeffs', 'commits')
            if f.op == 'eq':
                return not v and any(x.op == 'const' and x.a[1] == 0 for x in f.a) and any(x.op == 'call' and x.a[0] == 'len' for x in f.a)
            return f.op == 'lt' and v and f.a[0].op == 'const' and f.a[0].a[1] == 0 and f.a[1].op == 'call' and f.a[1].a[0] == 'len'
        return all(any(nonempty(f, v) for f, v in gg) for i, gg in S.steps)

    def term(self, item, want_const, want_ratio, done):
        item = unprev(item)
        # the outer loop: the one the share value / key is taken from
        cand = [l for l in plain_loops(item)]
        best = None
        errs = []
        for l in sorted(self.loops_deep(item), key=repr):
            self.outer = {l}
            out = []
            try:
                self.factors(item, False, out)
            except Fail as e:
                errs.append((l, e))
                continue
            one = p_const(1)
            const = (one, one)
            prod = (one, one)
            for L, r in out:
                if L is None:
                    const = r_mul(const, r)
                else:
                    prod = r_mul(prod, ren(r, repr(l), repr(L)))
            const = ren(const, repr(l), None)
            if l not in done:
                raise Fail('the sum does not run over all the shares')
            if not all(L in done or True for L, r in out):
                raise Fail('a product stops early')
            if not r_eq(const, want_const):
                raise Fail('the term of a share is not the share value times the basis value')
            if not r_eq(prod, want_ratio):
                raise Fail('the factor contributed by another share is not x_j/(x_j-x_i)' if XV not in {a for m in want_ratio[0] for a in m} else 'the factor contributed by another share is not (X-x_j)/(x_i-x_j)')
            return
        if errs:
            raise errs[0][1]
        raise Fail('the terms of the sum do not depend on the shares')

    def loops_deep(self, t):
        """loops whose element enters the term as share value"""
        out = set()
        seen = set()

        def go(x):
            if x in seen:
                return
            seen.add(x)
            e = self.entry(x)
            if e and e[0] == 'y':
                out.add(e[1])
                return
            for y in (PHI_ALTS.get(x, ()) if x.op == 'phi' else [y for y in absint.children(x)]):
                go(unprev(y))
        go(t)
        return out


def ren(r, i, j):
    def nm(a):
        if a.op == 'atom' and len(a.a) == 2:
            return C('atom', a.a[0] + ('i' if a.a[1] == i else 'j' if a.a[1] == j else '?' + a.a[1]))
        return a

    def p(d):
        o = {}
        for m, c in d.items():
            o = p_add(o, {tuple(sorted([nm(a) for a in m], key=lambda t: t.id)): c})
        return o
    return (p(r[0]), p(r[1]))


def mul_leaves(t):
    s = mul_split(t)
    return [y for x in s for y in mul_leaves(x)] if s else [t]


def uncast_raw(t):
    while t.op == 'cast' and t.a[0] not in ('u8', 'i8', 'u16', 'i16', 'bool'):
        t = t.a[1]
    return t


def full_range(run, r, lists):
    """r is 0..len(one of the lists)"""
    if r.op != 'adt' or not r.a[0].endswith('Range'):
        return False
    d = dict(r.a[2])
    if not (d['start'].op == 'const' and d['start'].a[1] == 0):
        return False
    e = run.cv(d['end'])
    return any(e is run.cv(run.an.length(l)) for l in lists)


XI, XJ, YI = C('atom', 'xi'), C('atom', 'xj'), C('atom', 'yi')
one_ = p_const(1)
R_SECRET = (p_atom(XJ), p_add(p_atom(XJ), p_atom(XI), -1))
R_POLY = (p_add(p_atom(XV), p_atom(XJ), -1), p_add(p_atom(XI), p_atom(XJ), -1))


def P01(ctx):
    for fn, ratio in (('recover_secret', R_SECRET), ('recover_commit', R_SECRET), ('recover_pri_poly', R_POLY), ('recover_pub_poly', R_POLY)):
        r = ctx.run(M + fn, OPEN)
        names = {r.body.locals[i].get('n'): i for i in range(1, r.body.argc + 1)}
        sh = r.p(2)
        thr = r.p(3)
        oks = r.oks()
        if not oks:
            ctx.bad('exits', fn, 'no success exit')
            continue
        for e in oks:
            I = Interp(ctx, r, sh)
            I.check(e.pay_raw, (p_atom(YI), one_), ratio, e.facts, 'lagrange', fn)
            ms = [m for m, k in I.maps.items() if k in ('x', 'y') and not isinstance(m, tuple)]
            iq = ineqs(e.cf)
            ctx.ob('enough', fn, any(leq((thr, 1), (C('call', 'len', r.cv(m)), -1)) in iq for m in ms),
                   'a result is returned although fewer shares with distinct indices than the threshold were given')
            if fn.endswith('poly'):
                ctx.ob('exact', fn, any(leq((C('call', 'len', r.cv(m)), 1), (thr, -1)) in iq or capped(r, I, m, thr) for m in ms),
                       'more shares than the threshold enter, so the polynomial may have a higher degree')
            ctx.ob('used', fn, bool(ms) and all(left_early_ok(r, m, thr) for m in ms), 'shares are left unused before the threshold is reached')


def capped(r, I, m, thr):
    """inserting stops as soon as the map holds the threshold"""
    return all(any(f.op == 'eq' and v and thr in f.a for f, v in canon_facts(r.N, g)) or any(f.op == 'done' and v for f, v in g) for g in tops(r, m)) and stops(r, m, thr)


def stops(r, m, thr):
    S = summarize(r, m, put_split, empty_list)
    if not S:
        return False
    lens = lambda f: f.op == 'eq' and any(x is thr for x in f.a) and any(x.op == 'call' and x.a[0] == 'len' for x in f.a)
    return all(any(lens(f) and v is False for f, v in canon_facts(r.N, g)) for i, g in S.steps) or any(f.op == 'eq' and v and thr in f.a for g in tops(r, m) for f, v in canon_facts(r.N, g))


def tops(r, m):
    """gates under which the value of map m was taken out of its loop"""
    if m.op != 'phi':
        return []
    S = summarize(r, m, put_split, empty_list)
    if S is None or m in S.heads:
        return []
    return list(PHI_GATE.get(m, {}).values())


def left_early_ok(r, m, thr):
    """the loop filling m ends with the shares, or with the threshold reached"""
    for g in tops(r, m):
        cf = canon_facts(r.N, g)
        S = summarize(r, m, put_split, empty_list)
        ls = {l for i, g2 in S.steps for x in i for l in loops_in(x) if not isinstance(l, tuple) or l[0] not in ('prev', 'each')}
        ls = S.all_loops
        if any((mk('done', l), True) in g for l in ls):
            continue
        iq = ineqs(cf)
        if any(dict(q).get(thr) == 1 and any(k is not None and k is not thr and k.op == 'call' and k.a[0] == 'len' and c == -1 for k, c in q) and len(q) == 2 for q in iq):
            continue
        return False
    return True


# ---------------------------------------------------------------- P02
def vec_items(run, t):
    """a list built element by element -> [(item with its position as atom, canonical), lists it runs over]; None if not recognised"""
    t = t
    if t.op == 'coll':
        e, c, L = t.a
        if c.op == 'call' and c.a[0] == 'rev':
            return None
        return run.cv(pos(run, e, L)), conts(run, e, L) | ({run.cv(c)} if c.op not in absint.ITERS else set())
    S = summarize(run, t, push_split, empty_list)
    if S and S.one and len(S.step) == 1 and not S.keeps and all(not i for i, g in S.inits):
        ls = S.all_loops
        if len(ls) != 1:
            return None
        L = list(ls)[0]
        if L in run.an.rev_loops:
            return None
        return run.cv(pos(run, S.step[0], L)), conts(run, S.step[0], L)
    return None


POS = C('atom', 'pos')


def pos(run, t, L):
    """t with the element visited by L written as index(container, position)"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'elem' and x.a[1] in (L, ('prev', L)):
            c = x.a[0]
            if c.op == 'adt' and c.a[0].endswith('Range'):
                st = dict(c.a[2])['start']
                r = POS if st.op == 'const' and st.a[1] == 0 else mk('bin', 'Add', POS, st)
            else:
                r = mk('index', go(c), POS)
        elif x.op in ('phi', 'param', 'const'):
            r = x
        else:
            def rec(y):
                if isinstance(y, absint.T):
                    return go(y)
                if isinstance(y, tuple):
                    return tuple(rec(z) for z in y)
                return y
            r = mk(x.op, *[rec(y) for y in x.a])
        memo[x] = r
        return r
    return go(t)


def conts(run, t, L):
    """canonical containers (or ranges) visited by L in t"""
    out = set()
    for x in subterms_np(t):
        if x.op == 'elem' and x.a[1] in (L, ('prev', L)):
            out.add(run.cv(x.a[0]))
    return out


def is_range(c, n):
    return c.op == 'adt' and c.a[0] == 'Range' and dict(c.a[2])['start'].op == 'const' and dict(c.a[2])['start'].a[1] == 0 and dict(c.a[2])['end'] is n


def covers(cs, vecs, n=None):
    """the visited containers are exactly the given lists, or 0..their length"""
    lens = [C('call', 'len', v) for v in vecs] + ([n] if n is not None else [])
    return bool(cs) and all(c in vecs or any(is_range(c, l) for l in lens) for c in cs)


def at(v):
    return C('index', v, POS)


def horner(ctx, run, e, val, coeffs, x, point):
    """val = sum coeffs[j] x^j: Horner's rule from the last coefficient down, or with a running power"""
    N = run.N
    seen, work = set(), [(val, frozenset())]
    kinds, inits, loops = [], [], set()
    nn = C('call', 'len', coeffs)
    last = lambda c: c.op == 'index' and c.a[0] is coeffs and int_lin(c.a[1]) == {nn: 1, None: -1}
    done = {f.a[0] for f, v in e.facts if f.op == 'done' and v}
    while work:
        h, gate = work.pop()
        if h.op == 'phi':
            if h in seen:
                continue
            seen.add(h)
            if h in PHI_GATE.get(h, ()) and head_loop(h) is not None and any(plain_loops(f) & {head_loop(h)} or any(l == ('prev', head_loop(h)) for l in loops_in(f)) for f, v in PHI_GATE[h][h]):
                return 'an iteration may leave a coefficient out'
            for v in PHI_ALTS.get(h, ()):
                work.append((v, gate | PHI_GATE.get(h, {}).get(v, frozenset())))
            continue
        v = h
        if is_nil(v):
            inits.append(('zero', gate))
            continue
        u = unprev(v)
        ls = list(plain_loops(u))
        if not ls and last(run.cv(v)):
            inits.append(('last', gate))
            continue
        if len(ls) != 1:
            return 'an iteration does not take exactly one coefficient'
        L = ls[0]
        loops.add(L)
        # which coefficient
        w = pos(run, u, L)
        cs = conts(run, u, L)
        rev = L in run.an.rev_loops
        if covers(cs, [coeffs]):
            kind = 'full'
        elif cs and all(c.op == 'adt' and c.a[0] == 'Range' and dict(c.a[2])['start'].op == 'const' and dict(c.a[2])['start'].a[1] == 0 and int_lin(dict(c.a[2])['end']) == {nn: 1, None: -1} for c in cs):
            kind = 'part'
        else:
            return 'the iteration does not run over all coefficients'
        fwd = C('index', coeffs, POS)
        bwd = [y for y in subterms_np(run.cv(w)) if y.op == 'index' and y.a[0] is coeffs and int_lin(y.a[1]) == {nn: 1, POS: -1, None: -1}]
        if point:
            l = N.pt(w)
            cf = [b for b in l if b.op == 'index' and b.a[0] is coeffs and not last(b)]
            if len(cf) != 1:
                return 'a coefficient does not enter as it is'
            mult = l[cf[0]]
            rest = {b: p for b, p in l.items() if b not in cf}
        else:
            p = N.sc(w)
            ms = [m for m in p if any(t.op == 'index' and t.a[0] is coeffs and not last(t) for t in m)]
            if len(ms) != 1 or p[ms[0]] != 1:
                return 'a coefficient does not enter as it is'
            cf = [t for t in ms[0] if t.op == 'index' and t.a[0] is coeffs and not last(t)]
            if len(cf) != 1:
                return 'a coefficient does not enter as it is'
            o = list(ms[0])
            o.remove(cf[0])
            mult = {tuple(o): 1}
            rest = {m: c for m, c in p.items() if m != ms[0]}
        if mult == p_const(1):
            if not rest:
                continue          # first iteration
            kinds.append(kind)
            down = (cf[0] is fwd and rev) or (bwd and cf[0] is bwd[0] and not rev)
            if not down:
                return 'coefficients are not taken from the last to the first'
            if point:
                if len(rest) == 1 and last(list(rest)[0]) and list(rest.values())[0] == p_atom(x):
                    inits.append(('last', frozenset()))
                    continue
                if len(rest) != 1 or list(rest.values())[0] != p_atom(x) or list(rest)[0].op != 'phi':
                    return 'the running value is not multiplied by the x coordinate once per coefficient'
                work.append((list(rest)[0], frozenset()))
            else:
                ms = list(rest.items())
                if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 2 and x in ms[0][0] and any(last(y) for y in ms[0][0]):
                    inits.append(('last', frozenset()))
                    continue
                if len(ms) != 1 or ms[0][1] != 1 or len(ms[0][0]) != 2 or x not in ms[0][0] or not any(y.op == 'phi' for y in ms[0][0]):
                    return 'the running value is not multiplied by the x coordinate once per coefficient'
                work.append(([y for y in ms[0][0] if y.op == 'phi'][0], frozenset()))
        else:
            # a running power
            mu = list(mult.items())
            if len(mu) != 1 or mu[0][1] != 1 or len(mu[0][0]) != 1 or mu[0][0][0].op != 'phi' or cf[0] is not fwd or rev or not covers(cs, [coeffs]):
                return 'a coefficient does not enter with its power of the x coordinate'
            S = summarize(run, mu[0][0][0], mul_split, is_one)
            if S is None or S.keeps or not S.one or len(S.step) != 1 or run.cv(S.step[0]) is not x or any(i for i, g in S.inits) or {head_loop(q) for q in S.heads} & {L} == set():
                return 'the power of the x coordinate does not advance once per coefficient'
            if not rest:
                continue
            kinds.append('full')
            r2 = list(rest.items())
            base = r2[0][0] if point else r2[0][0][0] if len(r2[0][0]) == 1 else None
            if len(r2) != 1 or base is None or base.op != 'phi' or r2[0][1] != (p_const(1) if point else 1):
                return 'the terms are not summed up'
            work.append((base, frozenset()))
    full, part = 'full' in kinds, 'part' in kinds
    if not kinds:
        return 'the value is not recognised as the evaluation of the polynomial'
    if full and part:
        return 'the iteration does not run over all coefficients'
    for k, g in inits:
        if part:
            cf = canon_facts(N, g)
            if k != 'last' and not any((f.op == 'call' and f.a[0] == 'is_empty' and f.a[1] is coeffs and v) or (f.op == 'lt' and f.a[0].op == 'const' and f.a[1] is nn and not v) for f, v in cf):
                return 'the last coefficient may be left out'
        elif k == 'last':
            return 'the last coefficient is taken twice'
    if not any(f.op == 'done' and v for f, v in e.facts) and not part:
        return 'the iteration may stop early'
    return None


def P02(ctx):
    for ty, cf, point in (('PriPoly', 'coeffs', False), ('PubPoly', 'commits', True)):
        fn = ty + '::eval'
        r = ctx.run(M + fn, OPEN)
        self, i = r.p(1), r.p(2)
        for e in r.exits:
            v = e.ret
            if v.op != 'adt':
                ctx.bad('eval', fn, 'a share is not built here')
                continue
            d = dict(v.a[2])
            ctx.ob('share-index', fn, uncast_raw(r.cv(d['i'])) is i, 'the share does not carry the index it was evaluated for')
            x = None
            for y in subterms_all(d['v']):
                c = r.cv(y) if y.op == 'call' and y.a[0] == 'Scalar::set_int64' else None
                if c is not None and c.op == 'int64' and int_lin(uncast_raw(c.a[0])) == {i: 1, None: 1}:
                    x = c
            if x is None:
                ctx.bad('x', fn, 'the polynomial is not evaluated at the index plus one')
                continue
            ctx.ob('x', fn, True)
            m = horner(ctx, r, e, d['v'], fld(self, cf), x, point)
            ctx.ob('eval', fn, m is None, m or '')
        # shares
        fn = ty + '::shares'
        r = ctx.run(M + fn, PROTO)
        self, n = r.p(1), r.p(2)
        want = C('call', M + ty + '::eval', self, POS)
        for e in r.exits:
            it = vec_items(r, e.ret)
            ok = it is not None and it[0] in (C('adt', 'Option', 'Some', (('0', want),)), want) and all(is_range(c, n) for c in it[1]) and it[1]
            ctx.ob('shares', fn, bool(ok), 'the shares are not the evaluations at 0..n, in order')
    for fn, cf in (('PriPoly::threshold', 'coeffs'), ('PubPoly::threshold', 'commits')):
        r = ctx.run(M + fn, OPEN)
        ctx.ob('threshold', fn, all(e.cv() is C('call', 'len', fld(r.p(1), cf)) for e in r.exits) and bool(r.exits), 'the threshold is not the number of coefficients')
    for fn, cf in (('PriPoly::secret', 'coeffs'), ('PubPoly::commit', 'commits')):
        r = ctx.run(M + fn, OPEN)
        ctx.ob('constant', fn, bool(r.exits) and all(e.cv() is C('index', fld(r.p(1), cf), mk('const', 'int', 0)) or e.cv().op == 'index' and e.cv().a[0] is fld(r.p(1), cf) and e.cv().a[1].op == 'const' and e.cv().a[1].a[1] == 0 for e in r.exits),
               'not the constant term')
    # commit
    fn = 'PriPoly::commit'
    r = ctx.run(M + fn, OPEN)
    self, b = r.p(1), r.p(2)
    cs = fld(self, 'coeffs')
    for e in r.exits:
        v = e.ret
        ok = v.op == 'adt'
        if ok:
            d = dict(v.a[2])
            it = vec_items(r, d['commits'])
            lin_ = N_lin({C('mulopt', b): p_atom(at(cs))})
            ok = it is not None and it[0] is lin_ and covers(it[1], [cs])
            ctx.ob('commit-base', fn, r.cv(d['b']) is b and r.cv(d['g']) is fld(self, 'g'), 'the commitment does not keep base point and group')
        ctx.ob('commit', fn, bool(ok), 'the commitments are not the coefficients times the base point, one for each, in order')
    # check
    fn = 'PubPoly::check'
    r = ctx.run(M + fn, PROTO)
    self, s = r.p(1), r.p(2)
    want = eqp((C('field', C('call', M + 'PubPoly::eval', self, fld(s, 'i')), 'v'), p_const(1)), (C('mulopt', fld(self, 'b')), {(fld(s, 'v'),): -1}))
    for val in (True, False):
        cases = true_cases(r, val)
        ctx.ob('check', fn, bool(cases) and all(any(f is want and v is val for f, v in cf) for cf, raw in cases),
               'a share is called %s without the commitment evaluated at its index %s its value times the base point' % ('consistent' if val else 'inconsistent', 'being' if val else 'differing from'))


def subterms_all(t):
    """subterms, through loop-carried values"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        work += list(PHI_ALTS.get(x, ())) if x.op == 'phi' else list(absint.children(x))


def N_lin(d):
    from norm import Norm
    return Norm().fl(d)


# ---------------------------------------------------------------- P03
def P03(ctx):
    for ty, cf, point in (('PriPoly', 'coeffs', False), ('PubPoly', 'commits', True)):
        fn = ty + '::add'
        r = ctx.run(M + fn, OPEN)
        self, q = r.p(1), r.p(2)
        a, b = fld(self, cf), fld(q, cf)
        ca, cb = C('call', 'len', a), C('call', 'len', b)
        gs, gq = C('call', 'ToString::to_string', fld(self, 'g')), C('call', 'ToString::to_string', fld(q, 'g'))
        for e in r.oks():
            ctx.ob('add-group', fn, has_eq(e.cf, gs, gq) or has_eq(e.cf, fld(self, 'g'), fld(q, 'g')), 'polynomials over different groups are added')
            ctx.ob('add-size', fn, has_eq(e.cf, ca, cb), 'polynomials of different length are added')
            v = e.pay_raw
            ok = v.op == 'adt'
            if ok:
                d = dict(v.a[2])
                it = vec_items(r, d[cf])
                if point:
                    want = N_lin({at(a): p_const(1), at(b): p_const(1)})
                else:
                    want = Norm_().fs(p_add(p_atom(at(a)), p_atom(at(b))))
                ok = it is not None and it[0] is want and covers(it[1], [a, b])
                ctx.ob('add-kept', fn, r.cv(d['g']) is fld(self, 'g') and ('b' not in d or r.cv(d['b']) is fld(self, 'b')), 'the sum does not keep group and base point')
            ctx.ob('add', fn, bool(ok), 'the coefficients of the sum are not the sums of the coefficients')
        ctx.ob('add-some', fn, bool(r.oks()), 'no sum is ever returned')
        fn = ty + '::equal'
        r = ctx.run(M + fn, OPEN)
        self, q = r.p(1), r.p(2)
        a, b = fld(self, cf), fld(q, cf)
        ca, cb = C('call', 'len', a), C('call', 'len', b)
        gs, gq = C('call', 'ToString::to_string', fld(self, 'g')), C('call', 'ToString::to_string', fld(q, 'g'))
        n = 0
        for e in r.oks():
            for leaf, g in value_alts(e.pay_raw, frozenset(e.facts)):
                m = equal_ok(ctx, r, leaf, g, a, b, (gs, gq), (ca, cb), set())
                n += 1
                ctx.ob('equal', fn, m is None, m or '')
        ctx.ob('equal-some', fn, n > 0, 'no comparison result')
    # mul
    fn = 'PriPoly::mul'
    r = ctx.run(M + fn, OPEN)
    self, q = r.p(1), r.p(2)
    for e in r.exits:
        m = convolution(r, e, fld(self, 'coeffs'), fld(q, 'coeffs'))
        ctx.ob('mul', fn, m is None, m or '')


def Norm_():
    from norm import Norm
    return Norm()


def equal_ok(ctx, r, leaf, g, a, b, groups, lens, seen):
    """a comparison result: true only with groups, lengths and every pair of encodings equal; false only with a difference"""
    cf = canon_facts(r.N, g)
    def is_const(t, v):
        return t.op == 'const' and bool(t.a[1]) is v
    pairs, rest, over = [], [], []

    def conj(t):
        if t.op == 'and':
            for x in t.a:
                conj(x)
        elif t.op == 'phi' and t not in seen:
            seen.add(t)
            phis.append(t)
            for v in PHI_ALTS.get(t, ()):
                if v.op != 'phi' and v.op != 'const' and not keeps_earlier(v):
                    over.append(v)
                conj(v)
        elif t.op == 'phi':
            pass
        else:
            (pairs if t.op == 'eq' or t.op == 'call' else rest).append(t)
    phis = []
    conj(leaf)
    if leaf.op not in ('phi', 'const') and not keeps_earlier(leaf):
        over.append(leaf)
    same = has_eq(cf, *groups) and has_eq(cf, *lens)
    each = False
    for f, v in cf:
        if f.op == 'eq' and v and each_pair(r, f, a, b):
            each = True
    if is_const(leaf, False):
        if has_eq(cf, *groups, val=False) or has_eq(cf, *lens, val=False) or any(f.op == 'orf' for f, v in cf) or any(f.op == 'eq' and v is False and cur_pair(r, f, a, b) for f, v in cf):
            return None
        return 'polynomials are called different without a difference'
    if not same:
        return 'polynomials are called equal although group or length may differ'
    if is_const(leaf, True):
        # every pair compared equal, or there are none
        return None if each or vacuous(r, cf, g, lens) else 'polynomials are called equal without comparing every coefficient'
    ok = bool(pairs) and all(cur_pair(r, r.cv(p), a, b) for p in pairs) and all(is_const(x, True) for x in rest)
    if not ok:
        return 'the result is not the comparison of the encodings of all coefficients'
    if over:
        return 'a later comparison replaces the result of an earlier one'
    # accumulated over a loop that ran to its end
    done = {f.a[0] for f, v in g if f.op == 'done' and v}
    ls = {l for p in pairs for l in plain_loops(unprev(p))}
    if not ls or not ls <= done:
        return 'coefficients are left out of the comparison'
    for p in pairs:
        for l in plain_loops(unprev(p)):
            if not covers(conts(r, unprev(p), l), [a, b]):
                return 'the comparison does not range over all coefficients'
    for h in phis:
        if h in PHI_GATE.get(h, ()):
            return 'an iteration may compare nothing'
    return None


def keeps_earlier(v):
    return v.op == 'and' and any(y.op in ('phi', 'const') or keeps_earlier(y) for y in v.a)


def vacuous(r, cf, g, lens):
    return any(f.op == 'done' and v for f, v in g)


def cur_pair(r, f, a, b):
    if f.op != 'eq':
        return False
    def strip(t, n):
        for _ in range(4):
            if t.op in ('enc',) or t.op == 'bytes' and len(t.a) == 1:
                t = t.a[0]
        t = unprev(t)
        if t.op == 'elem':
            return (t.a[0], 'p')
        if t.op == 'index' and t.a[1].op == 'elem':
            return (t.a[0], 'p')
        return None
    x, y = strip(f.a[0], 0), strip(f.a[1], 0)
    return x is not None and y is not None and {x[0], y[0]} == {a, b}


def each_pair(r, f, a, b):
    return any(isinstance(l, tuple) and l and l[0] == 'each' for l in loops_in(f)) and cur_pair(r, f, a, b)


def convolution(r, e, a, b):
    """result[i + j] += a[i] * b[j] over all i, j, from zeros"""
    v = e.ret
    if v.op != 'adt':
        return 'the product is not built here'
    x = dict(v.a[2])['coeffs']
    A = acc(r, x, put_split)
    if not A or not A.ok:
        return 'the coefficients of the product are not recognised'
    heads = {q for i, g, q in A.cycles} | {x} | {p for p in subterms_all(x) if p.op == 'phi' and acc(r, p, put_split) is not None}
    bases = {y for i, g, ph in A.inits for y in i if y.op != 'tuple'}
    if len(bases) != 1:
        return 'the product does not start from one list'
    base = bases.pop()
    zi = vec_fill(r, base)
    if zi is None:
        return 'the product does not start from a list of zeros'
    la, lb = C('call', 'len', a), C('call', 'len', b)
    if int_lin(zi) != {la: 1, lb: 1, None: -1}:
        return 'the product has the wrong number of coefficients'
    n = 0
    lsets = set()
    for it in [i for i, g, q in A.cycles] + [i for i, g, ph in A.inits]:
        for y in it:
            if y.op != 'tuple':
                continue
            ix, val = unprev(y.a[0]), unprev(y.a[1])
            ls = sorted(plain_loops(ix), key=repr)
            if len(ls) != 2:
                return 'a product term is not stored under the sum of two positions'
            lsets.add(frozenset(ls))
            own = []
            p = r.N.sc(val)
            selfm = [m for m in p if len(m) == 1 and m[0].op == 'index' and (m[0].a[0] in heads or m[0].a[0] is base or m[0].a[0] is r.cv(base) or m[0].a[0] in {r.cv(h) for h in heads})]
            if len(selfm) != 1 or p[selfm[0]] != 1:
                return 'a product term replaces what was summed so far'
            if r.cv(selfm[0][0].a[1]) is not r.cv(ix):
                return 'a product term is added to the wrong coefficient'
            rest = {m: c for m, c in p.items() if m is not selfm[0]}
            good = False
            for l1, l2 in (ls, ls[::-1]):
                w = pos2(r, val, l1, l2)
                if not (covers(conts(r, val, l1) | conts(r, ix, l1), [a]) and covers(conts(r, val, l2) | conts(r, ix, l2), [b])):
                    continue
                q = r.N.sc(w)
                q = {m: c for m, c in q.items() if not (len(m) == 1 and m[0].op == 'index' and m[0].a[0] is not a and m[0].a[0] is not b)}
                want = tuple(sorted([C('index', a, P1), C('index', b, P2)], key=lambda t: t.id))
                iw = int_lin(r.cv(pos2(r, ix, l1, l2)))
                if q == {want: 1} and iw == {P1: 1, P2: 1}:
                    good = True
            if not good:
                return 'a product term is not a coefficient of the one times a coefficient of the other at the sum of their positions'
            n += 1
    for (i, g, q), path in zip(A.cycles, A.paths):
        if not i and not passing(r, q, g, path, lsets):
            return 'a pair of coefficients may be left out'
    if not n:
        return 'no product terms'
    done = {f.a[0] for f, v in e.facts if f.op == 'done' and v}
    if not any(ls & done for ls in lsets):
        return 'the iteration may stop early'
    return None


def passing(r, q, g, path, lsets):
    """nothing is added on the way round: only between the iterations of the outer loop, the inner one having run to its end"""
    for ls in lsets:
        if not all(isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], int) for l in ls) or len({l[0] for l in ls}) != 1:
            continue
        l1, l2 = sorted(ls)
        loops = r.body.cfg()['loops']
        if l1[1] not in loops or l2[1] not in loops:
            continue
        inner, outer = (l1, l2) if l1[1] in loops[l2[1]] else (l2, l1)
        hs = {head_loop(x) for x in path}
        if inner not in hs or outer not in hs:
            return False
        if (mk('done', inner), True) not in g:
            return False
    return True


P1, P2 = C('atom', 'p1'), C('atom', 'p2')


def pos2(r, t, l1, l2):
    def sub(x, v):
        return absint.subst_term(x, POS, v) if hasattr(absint, 'subst_term') else repl(x, POS, v)
    return repl(pos(r, repl(pos(r, t, l1), POS, P1), l2), POS, P2)


def repl(t, a, b):
    memo = {}

    def go(x):
        if x is a:
            return b
        if x in memo:
            return memo[x]
        if x.op in ('phi', 'param', 'const'):
            r = x
        else:
            def rec(y):
                if isinstance(y, absint.T):
                    return go(y)
                if isinstance(y, tuple):
                    return tuple(rec(z) for z in y)
                return y
            r = mk(x.op, *[rec(y) for y in x.a])
        memo[x] = r
        return r
    return go(t)


def vec_fill(r, t):
    """length of a list of zeros"""
    if t.op == 'call' and t.a[0] in ('from_elem', 'vec::from_elem') and len(t.a) == 3 and is_nil(t.a[1]):
        return r.cv(t.a[2])
    S = summarize(r, t, push_split, empty_list) if t.op == 'phi' else None
    if S and S.one and len(S.step) == 1 and not S.keeps and is_nil(S.step[0]):
        for h in S.heads:
            L = head_loop(h)
            if L is None:
                continue
            n = loop_range(r, L)
            if n is not None:
                return n
    if t.op == 'coll' and is_nil(t.a[0]):
        c = r.cv(t.a[1])
        if c.op == 'adt' and c.a[0] == 'Range':
            d = dict(c.a[2])
            if d['start'].op == 'const' and d['start'].a[1] == 0:
                return d['end']
        return C('call', 'len', c)
    return None


def loop_range(r, L):
    """the count n when loop L runs over 0..n"""
    for e in r.exits:
        for f, v in e.facts:
            for y in subterms_np(f):
                if y.op == 'elem' and y.a[1] in (('each', L), L) and y.a[0].op == 'adt' and y.a[0].a[0].endswith('Range'):
                    d = dict(y.a[0].a[2])
                    if d['start'].op == 'const' and d['start'].a[1] == 0:
                        return r.cv(d['end'])
    return None


# ---------------------------------------------------------------- P04
def P04(ctx):
    fn = 'new_pri_poly'
    r = ctx.run(M + fn, OPEN)
    g, t, s = r.p(1), r.p(2), r.p(3)
    for e in r.exits:
        v = e.ret
        if v.op != 'adt':
            ctx.bad('new', fn, 'the polynomial is not built here')
            continue
        x = dict(v.a[2])['coeffs']
        firsts, rest, why = coeff_list(r, x, t, e)
        if why:
            ctx.bad('new', fn, why)
            continue
        given = False
        for leaf, gate in firsts:
            cf = canon_facts(r.N, gate | e.facts)
            if r.cv(leaf) is C('vf', s, 'Some', '0'):
                given = True
                ctx.ob('secret', fn, True)
            elif fresh(r, leaf):
                ctx.ob('secret', fn, (C('is', s, 'Some'), False) in cf or (C('is', s, 'None'), True) in cf, 'a random constant term is used although a secret was given')
            else:
                ctx.bad('secret', fn, 'the constant term is neither the given secret nor freshly drawn: %s' % show(r.cv(leaf))[:100])
        ctx.ob('secret-used', fn, given, 'a given secret never becomes the constant term')
        ctx.ob('random', fn, bool(rest) and all(fresh(r, y) for y in rest), 'a coefficient above the constant term is not freshly drawn for it')
    # how many: one per iteration of 1..t
    n = r.calls('Scalar::pick')
    ctx.ob('draws', fn, len(n) >= 1, 'no coefficient is drawn')
    for fn in ('PriShare::hash', 'PubShare::hash'):
        r = ctx.run(M + fn, OPEN)
        s = r.p(1)
        for e in r.oks():
            parts = e.pay.a[0].a if e.pay.op == 'hash' and e.pay.a[0].op == 'bytes' else ()
            ctx.ob('hash', fn, any(p is enc(fld(s, 'v')) for p in parts) and any(p.op == 'num' and p.a[0] in ('u32', 'u64') and uncast_raw(p.a[1]) is fld(s, 'i') for p in parts) or enc_i(parts, s),
                   'the share hash does not cover value and index')
        ctx.ob('hash-some', fn, bool(r.oks()), 'no hash')


def enc_i(parts, s):
    return any(p is enc(fld(s, 'v')) for p in parts) and any(carries(p, fld(s, 'i')) for p in parts)


def fresh(r, t):
    """a scalar picked from the random stream given"""
    t = r.cv(t) if t.op == 'phi' else t
    return t.op == 'call' and t.a[0] == 'Scalar::pick'


def coeff_list(r, x, t, e):
    """first element alternatives, the other elements, or what is wrong"""
    A = acc(r, x, push_split)
    if A is None:
        if x.op == 'coll' or x.op == 'mut':
            return [], [], 'the coefficient list is not recognised'
        return [], [], 'the coefficient list is not recognised'
    rest, firsts = [], []
    heads = {q for i, g, q in A.cycles}
    for i, g, q in A.cycles:
        if any(not absint.varies(unprev(y), None, head_loop(q)) and not plain_loops(unprev(y)) for y in i):
            return [], [], 'one coefficient is used for several powers'
        if len(i) > 1:
            return [], [], 'an iteration adds more than one coefficient'
        if not i:
            return [], [], 'an iteration may add no coefficient'
        rest += i
    def leaves(x):
        q = push_split(x)
        return [y for p in q for y in leaves(p)] if q else [x]
    for i, g, ph in A.inits:
        # pushes are collected from the last to the first; the list they are made on comes last
        base = [y for y in i if empty_list(y) or y.op in ('phi', 'array', 'mut') and (y.op == 'array' or any(push_split(v) or empty_list(v) for v in PHI_ALTS.get(y, ())))]
        if len(base) != 1:
            return [], [], 'the list the coefficients are added to is not recognised'
        added = [y for y in i if y is not base[0]]
        for leaf, g2 in value_alts(base[0], frozenset(g)):
            own = [y for y in leaves(leaf) if not empty_list(y)]
            flat = []
            for y in own:
                flat += list(y.a) if y.op == 'array' else [y]
            if not flat:
                if not added:
                    return [], [], 'there is no constant term'
                firsts += value_alts(added[-1], frozenset(g2))
                rest += added[:-1]
            elif len(flat) == 1:
                firsts += value_alts(flat[0], frozenset(g2))
                rest += added
            else:
                return [], [], 'more than the constant term is set before the others are drawn'
    for h in heads:
        if not loop_range1(r, head_loop(h), t) and not grown(r, x, A, t, e):
            return [], [], 'the number of coefficients is not the threshold'
    return firsts, rest, None


def grown(r, x, A, t, e):
    """elements are added while there are fewer than t"""
    lt = lambda f, hs: f.op == 'lt' and f.a[1] is t and f.a[0].op == 'call' and f.a[0].a[0] == 'len' and f.a[0].a[1] in hs
    raw = lambda f, hs: f.op == 'lt' and r.cv(f.a[1]) is t and f.a[0].op == 'call' and f.a[0].a[0] == 'len' and f.a[0].a[1] in hs
    hs = {q for i, g, q in A.cycles}
    return all(any(raw(f, hs) and v for f, v in g) for i, g, q in A.cycles) and any(raw(f, hs | {x}) and v is False for f, v in e.facts)


def loop_range1(r, L, t):
    """loop L makes t - 1 iterations"""
    for e in r.exits:
        for f, v in e.facts:
            for y in subterms_np(f):
                if y.op == 'elem' and y.a[1] in (('each', L), L) and y.a[0].op == 'adt' and 'Range' in y.a[0].a[0]:
                    d = dict(y.a[0].a[2])
                    if int_lin(mk('bin', 'Sub', r.cv(d['end']), r.cv(d['start']))) == {t: 1, None: -1}:
                        return True
    return False
