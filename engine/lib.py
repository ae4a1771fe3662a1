"""Rule support: analysis runs, exits, canonical facts, obligations."""
import time
from terms import *
from terms import PHI_ALTS, PHI_GATE, PHI_ROW
from program import Program
from absint import Analyzer, origin, Give
from norm import Norm, C, B, subterms_np, erase_loops
import absint
from absint import State

SCH_V = 'sign::schnorr::schnorr_sig::verify'
SCH_S = 'sign::schnorr::schnorr_sig::sign'
POLY_PUB = ('share::poly::PubPoly::', 'share::poly::PriPoly::')
POLY_OPAQUE = {'share::poly::' + x for x in ('recover_secret', 'recover_commit', 'recover_pri_poly', 'recover_pub_poly', 'new_pri_poly', 'coefficients_to_pri_poly')} | \
    {'share::poly::PubPoly::' + x for x in ('eval', 'add', 'equal', 'check', 'commit', 'info', 'shares', 'threshold')} | \
    {'share::poly::PriPoly::' + x for x in ('eval', 'add', 'equal', 'commit', 'secret', 'shares', 'coefficients', 'mul', 'threshold')}
PROTO = frozenset({SCH_V, SCH_S} | POLY_OPAQUE)


def clean_body(P, name):
    return P.find(name)


def never(t, v):
    """no alternative of a joined value is the variant v"""
    seen, todo, some = set(), [t], False
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and PHI_ALTS.get(x):
            todo += list(PHI_ALTS[x])
        elif x.op == 'adt' and x.a[1] != v:
            some = True
        else:
            return False
    return some


class Exit:
    def __init__(self, run, st, ret, extra=()):
        self.run = run
        self.st = st
        self.ret = ret
        self.extra = tuple(extra)
        self._cf = None
        self.sub = None

    @property
    def facts(self):
        return self.st.facts | frozenset(self.extra)

    @property
    def cf(self):
        """canonical facts: set of (canonical predicate, bool)"""
        if self._cf is None:
            self._cf = canon_facts(self.run.N, self.facts)
        return self._cf

    def final(self, param, *path):
        """canonical value of a by-reference parameter (or a field of it) at this exit"""
        t = self.st.mem.get(('O', param), param)
        for n in path:
            t = self.run.an.field(t, n)
        t = self.run.an.deep(self.st, t)
        return self.run.N.cv(self.pick(t))

    def final_raw(self, param, *path):
        t = self.st.mem.get(('O', param), param)
        for n in path:
            t = self.run.an.field(t, n)
        t = self.run.an.deep(self.st, t)
        return self.pick(t)

    def pick(self, t):
        """the value in the joined state this exit stands for"""
        if self.sub is None:
            return t
        key, n, i = self.sub
        m = {p: PHI_ROW[p][1][i] for p in subterms_np(t) if p.op == 'phi' and p in PHI_ROW and PHI_ROW[p][0] == key and len(PHI_ROW[p][1]) == n}
        return subst(t, m) if m else t

    def rows(self):
        """when several parts of the result are joins of the same states: one exit for each of those states"""
        groups = {}
        for p in subterms_np(self.pay_raw):
            if p.op == 'phi' and p in PHI_ROW:
                groups.setdefault((PHI_ROW[p][0], len(PHI_ROW[p][1])), []).append(p)
        groups = [g for g in groups.values() if len(g) > 1]
        if len(groups) != 1:
            return [self]
        out = []
        for i in range(len(PHI_ROW[groups[0][0]][1])):
            m = {p: PHI_ROW[p][1][i] for p in groups[0]}
            if any(v is p for p, v in m.items()):
                return [self]
            facts = frozenset().union(*[PHI_GATE.get(p, {}).get(v, frozenset()) for p, v in m.items()])
            x = Exit(self.run, self.st, subst(self.ret, m), self.extra + tuple(facts))
            x.sub = PHI_ROW[groups[0][0]][0], len(PHI_ROW[groups[0][0]][1]), i
            x.pay_raw = subst(self.pay_raw, m)
            x.pay = self.run.N.cv(x.pay_raw)
            out.append(x)
        return out

    def cv(self):
        return self.run.N.cv(self.ret)


def canon_facts(N, facts):
    out = set()
    done = {p.a[0] for p, v in facts if p.op == 'done' and v}
    for p, v in facts:
        # "every element visited" only says something when the loop ran to its end
        if p.op != 'done' and any(l not in done for l in absint.each_loops(p)):
            continue
        c = N.cv(p)
        if c.op == 'not':
            c, v = c.a[0], not v
        out.add((c, v))
        if p.op == 'call' and p.a[0] == 'share::poly::PubPoly::check' and len(p.a) == 3:
            out.add((N.check_eq(p.a[1], p.a[2]), v))
    # `a == b` facts between lengths etc. are symmetric already
    return out


def carries(p, x):
    """the piece of a message holds x whole: not cut to a small type, masked or mixed with something else"""
    if p is x:
        return True
    if p.op in ('narrow', 'bin', 'phi') or p.op == 'cast' and p.a[0] in ('u8', 'i8', 'u16', 'i16', 'bool'):
        return False
    return any(carries(y, x) for y in p.a if hasattr(y, 'op'))


class Run:
    def __init__(self, ctx, body, opaque, args=None, facts=(), opaque_pred=None):
        self.ctx = ctx
        self.body = body
        self.an = Analyzer(ctx.P, opaque, opaque_pred)
        t = time.time()
        self.raw = self.an.run(body, args, facts)
        self.N = Norm(self.an)
        self.secs = time.time() - t
        self.exits = [Exit(self, s, r) for s, r in self.raw]
        self.events = self.an.events

    def p(self, i, *path):
        """canonical term of parameter i (1-based) and a field path"""
        t = mk('param', i, self.body.locals[i].get('n', '_%d' % i))
        for n in path:
            t = mk('field', t, n)
        return t

    def oks(self):
        """exits that can return Ok/Some/true; ret payload canonical in .pay"""
        out = []
        for e in self.exits:
            r = e.ret
            if r.op == 'adt' and r.a[1] in ('Err', 'None'):
                continue
            if r.op == 'adt' and r.a[1] in ('Ok', 'Some'):
                e.pay_raw = r.a[2][0][1]
                e.pay = self.N.cv(e.pay_raw)
                out.append(e)
                continue
            ty = self.body.ret
            if ty.startswith(('std::result::Result', 'core::result::Result')):
                v = 'Ok'
            elif ty.startswith(('std::option::Option', 'core::option::Option')):
                v = 'Some'
            else:
                e.pay_raw = r
                e.pay = self.N.cv(r)
                out.append(e)
                continue
            if never(r, v):
                continue
            st = self.an.assume(e.st, mk('istest', r, v), True)
            if st is None:
                continue
            x = Exit(self, st, r)
            x.pay_raw = self.an.payload(r, v)
            x.pay = self.N.cv(x.pay_raw)
            out.append(x)
        return out

    def errs(self):
        return [e for e in self.exits if e.ret.op == 'adt' and e.ret.a[1] in ('Err', 'None')]

    def trues(self, val=True):
        """exits of a bool function that can return `val`"""
        out = []
        for e in self.exits:
            st = self.an.assume(e.st, e.ret, val)
            if st is not None:
                out.append(Exit(self, st, e.ret))
        return out

    def calls(self, *names, inlined=True):
        return [e for e in self.events if e.kind == 'call' and (e.name in names or e.clean in names) and (inlined or e.extra != 'inlined')]

    def cfacts(self, ev):
        return canon_facts(self.N, ev.facts)

    def cv(self, t):
        return self.N.cv(t)


class Ctx:
    def __init__(self, P, prop, tier='quick'):
        self.P = P
        self.prop = prop
        self.tier = tier
        self.viol = []
        self.obl = []
        self._runs = {}
        self.fns = set()
        self.samples = []

    def run(self, name, opaque=PROTO, assume=(), **kw):
        if assume:
            kw['facts'] = frozenset(f for t, v in assume for f in (Analyzer(self.P).facts_of(t, v) or ()))
        key = (name, frozenset(opaque), tuple(sorted(kw)))
        r = self._runs.get(key)
        if r is None or kw:
            b = self.P.find(name)
            if b is None:
                self.bad('anchor', name, 'function %s is not in the program: the rule has nothing to analyse' % name)
                raise Missing(name)
            r = Run(self, b, opaque, **kw)
            self.fns |= r.an.fns_seen
            self._runs[key] = r
        return r

    def ob(self, rule, construct, ok, msg='', where=None):
        """record one obligation"""
        self.obl.append((rule, construct, bool(ok)))
        if not ok:
            self.viol.append({'rule': rule, 'construct': construct, 'msg': msg, 'where': where or ''})
        return bool(ok)

    def bad(self, rule, construct, msg, where=None):
        self.ob(rule, construct, False, msg, where)

    def need(self, rule, construct, exits, pred, msg, floor=1):
        """every exit in `exits` satisfies pred; at least `floor` exits exist"""
        if len(exits) < floor:
            self.bad(rule, construct, 'no success exit found (expected at least %d): %s' % (floor, msg))
            return False
        ok = True
        for i, e in enumerate(exits):
            if not pred(e):
                ok = False
        self.ob(rule, construct, ok, msg)
        return ok


class Missing(Exception):
    pass


def where(ev):
    return '%s:%s in %s' % (ev.file, ev.line, ev.fn)


# ------------------------------------------------------------------ matching helpers
def has(cf, t, val=True):
    return (t, val) in cf


def fld(t, *names):
    for n in names:
        while t.op == 'upd' and n not in dict(t.a[1]):
            t = t.a[0]
        if t.op == 'upd':
            t = dict(t.a[1])[n]
            continue
        if t.op == 'adt':
            d = dict(t.a[2])
            if n in d:
                t = d[n]
                continue
        t = C('field', t, n)
    return t


def eq(a, b):
    if a is b:
        return None
    if b.id < a.id:
        a, b = b, a
    return C('eq', a, b)


def has_eq(cf, a, b, val=True):
    if a is b:
        return val
    return (eq(a, b), val) in cf


def bytes_of(*parts):
    return C('bytes', *parts)


def enc(x):
    return C('enc', x)


def lin(*terms):
    """lin((base, poly-dict)...)"""
    N = Norm()
    d = {}
    for b, p in terms:
        d = __import__('norm').l_add(d, {b: p})
    return d


def eqp(*terms):
    return Norm().eqz(lin(*terms))


def value_alts(t, facts=frozenset(), seen=()):
    """(leaf value, facts) for every way a value can come about; facts hold on every path choosing it"""
    if t.op != 'phi':
        return [(t, facts)]
    out = []
    for v in PHI_ALTS.get(t, ()):
        if v in seen or v is t:
            continue
        if refuted(t, v, facts):
            continue
        g = PHI_GATE.get(t, {}).get(v, frozenset())
        out += value_alts(v, facts | g, seen + (t,))
    return out


def refuted(t, v, facts):
    """the facts say of t what does not hold of v"""
    for f, b in facts:
        if f.op == 'eq' and t in f.a:
            o = f.a[1] if f.a[0] is t else f.a[0]
            if o is v and not b or b and o.op == 'const' and v.op == 'const' and o is not v and o.a[0] == v.a[0]:
                return True
        elif f.op == 'lt' and b and (f.a[0] is t and f.a[1] is v or f.a[1] is t and f.a[0] is v):
            return True
    return False


class Counter:
    """a loop counter starting at 0 that grows by one: facts (raw) on every path that counts, and on every path that does not"""
    def __init__(self, incs, keeps, loops=(), vals=()):
        self.vals = vals
        self.incs = incs
        self.keeps = keeps
        self.loops = loops

    def complete(self, facts):
        """the counting loop ran to its end"""
        return bool(self.loops) and all((mk('done', l), True) in facts for l in self.loops)


EMPTY = ('Vec::new', 'Vec::with_capacity', 'HashMap::new', 'HashMap::with_capacity', 'HashSet::new', 'BTreeMap::new')


def counter(run, t):
    """recognise a term as the number of iterations of a loop satisfying a condition"""
    if t.op == 'call' and t.a[0] == 'len':
        t = t.a[1]     # length of a list filled by a loop
    if t.op != 'phi':
        return None
    incs, keeps, vals = [], [], []
    seen = set()
    zero = False

    def go(x, g, top):
        """x: phi or leaf; g: gate so far; False when not a counter"""
        nonlocal zero
        if x.op == 'const':
            if x.a[1] == 0:
                zero = True
                return True
            return x.a[1] == 1 and (incs.append(g) or vals.append(None) or True)
        if x.op == 'bin' and x.a[0] == 'Add' and any(y.op == 'const' and y.a[1] == 1 for y in x.a[1:]):
            o = [y for y in x.a[1:] if not (y.op == 'const' and y.a[1] == 1)]
            if len(o) == 1 and o[0].op == 'phi':
                incs.append(g)
                vals.append(None)
                return True
            return False
        if x.op == 'array' and not x.a or x.op == 'call' and x.a[0] in EMPTY:
            zero = True
            return True
        if x.op == 'mut' and x.a[0] == 'Vec::push' and x.a[0] == 'Vec::push' and (x.a[2].op in ('phi', 'array') or x.a[2].op == 'call' and x.a[2].a[0] in EMPTY):
            incs.append(g)
            vals.append(x.a[3])
            return x.a[2].op != 'array' or not x.a[2].a
        if x.op == 'phi':
            if x in seen:
                keeps.append(g)
                return True
            seen.add(x)
            if x in PHI_GATE.get(x, ()):
                keeps.append(g | PHI_GATE[x][x])
            for v in PHI_ALTS.get(x, ()):
                if not go(v, g | PHI_GATE.get(x, {}).get(v, frozenset()), False):
                    return False
            return True
        return False
    if not go(t, frozenset(), True) or not zero or not incs:
        return None
    loops = None
    for g in incs:
        ls = {l for f, v in g for l in absint.loops_in(f) if not (isinstance(l, tuple) and l and l[0] in ('each', 'prev'))}
        loops = ls if loops is None else loops & ls
    if not loops and t.a and isinstance(t.a[0], tuple) and isinstance(t.a[0][0], tuple) and len(t.a[0][0]) >= 2:
        loops = {t.a[0][0][:2]}     # the loop whose head joins the counter
    return Counter([canon_facts(run.N, g) for g in incs], [canon_facts(run.N, g) for g in keeps], frozenset(loops or ()), [run.cv(v) if v is not None else None for v in vals])


class Accum:
    """a loop-carried value: initial values, the items added to it, and the facts on paths that add / add nothing"""
    def __init__(self):
        self.inits, self.steps, self.keeps, self.loops, self.shape_ok = [], [], [], set(), True


def split_add(x):
    """the two operands of an accumulating operation"""
    y = x
    if y.op == 'vf' and y.a[1] == 'Ok':
        y = y.a[0]
    if y.op == 'call' and y.a[0] in ('Add::add', 'share::poly::PubPoly::add') and len(y.a) == 3:
        return y.a[1], y.a[2]
    if x.op == 'bin' and x.a[0] == 'Add':
        return x.a[1], x.a[2]
    if x.op == 'mut' and x.a[0] in ('AddAssign::add_assign', 'Vec::push') and len(x.a) == 4:
        return x.a[2], x.a[3]
    if x.op == 'mut' and x.a[0] in ('insert', 'HashMap::insert', 'store') and len(x.a) == 5:
        return x.a[2], mk('tuple', x.a[3], x.a[4])
    return None


def lift_payload(x):
    """the success value of a join is the join of the success values"""
    if x.op != 'vf' or x.a[0].op != 'phi':
        return x
    p = x.a[0]
    q = mk('phi', ('vf', p.a[0], x.a[1]))
    if q not in PHI_ALTS:
        PHI_ALTS[q] = {mk('vf', y, x.a[1]): None for y in PHI_ALTS.get(p, ()) if not never(y, x.a[1])}
        PHI_GATE[q] = {mk('vf', y, x.a[1]): PHI_GATE.get(p, {}).get(y, frozenset()) for y in PHI_ALTS.get(p, ())}
    return q if PHI_ALTS[q] else x


def plain_loops(t):
    return {l for l in absint.loops_in(t) if not (isinstance(l, tuple) and l and l[0] in ('each', 'prev'))}


def unprev(t):
    for l in absint.loops_in(t):
        if isinstance(l, tuple) and l and l[0] == 'prev':
            t = absint.subst_loop(t, l, l[1])
    return t


def _rebase(g):
    if any(plain_loops(f) for f, v in g) or not any(isinstance(l, tuple) and l and l[0] == 'prev' for f, v in g for l in absint.loops_in(f)):
        return g
    return frozenset((unprev(f), v) for f, v in g)


def accum(run, t, facts=frozenset(), zero=None):
    """recognise a value built up by a loop; zero(leaf) tells an initial value from an item"""
    zero = zero or (lambda x: not absint.loops_in(x) and not any(y.op == 'phi' for y in subterms_np(x)))
    A = Accum()
    alts = []
    seen = set()

    def flat(x, items, phis):
        if x.op == 'vf' and x.a[0].op == 'phi' and all(split_add(mk('vf', y, x.a[1])) for y in PHI_ALTS.get(x.a[0], ())):
            x = lift_payload(x)
        s = split_add(x)
        if s:
            flat(s[0], items, phis)
            flat(s[1], items, phis)
        elif x.op == 'phi':
            phis.append(x)
        else:
            items.append(x)

    def go(x, carried, g):
        items, phis = [], []
        flat(x, items, phis)
        items = carried + items
        if not phis:
            alts.append((items, g))
            return
        # a phi among the addends that is not loop carried is an item of its own kind
        acc = phis[0]
        for p in phis[1:]:
            A.shape_ok = False
        if acc in seen:
            alts.append((items, g))
            return
        seen.add(acc)
        gs = PHI_GATE.get(acc, {})
        if acc in gs:
            alts.append((items, g | gs[acc]))
        for v in PHI_ALTS.get(acc, ()):
            go(v, items if False else [], g | gs.get(v, frozenset()))
        if items:
            alts.append((items, g))
    go(t, [], frozenset(facts))
    # alternatives that come round the loop directly carry the facts of the iteration just finished
    alts = [(items, _rebase(g)) for items, g in alts]
    cur = {}
    for items, g in alts:
        for i in items:
            if not zero(i) and not any(isinstance(l, tuple) and l and l[0] == 'prev' for l in absint.loops_in(i)):
                cur.setdefault(i, []).append(g)
    for items, g in alts:
        steps = 0
        for i in items:
            if zero(i):
                if i not in A.inits:
                    A.inits.append(i)
                continue
            u = unprev(i)
            if u is not i and u in cur:
                continue
            steps += 1
            A.steps.append((u, g))
            A.loops |= plain_loops(u)
        if steps > 1:
            A.shape_ok = False
        A.keeps.append(g) if not steps else None
    if not A.loops and A.steps:
        A.loops = set.intersection(*[{l for f, v in g for l in plain_loops(f)} for i, g in A.steps])
    # an alternative without any step is a path that keeps the value only if it belongs to an iteration
    A.keeps = [g for g in A.keeps if any(plain_loops(f) & A.loops for f, v in g)]
    A.steps_c = [(run.cv(i), canon_facts(run.N, g)) for i, g in A.steps]
    A.keeps_c = [canon_facts(run.N, g) for g in A.keeps]
    A.inits_c = [run.cv(i) for i in A.inits]
    return A if A.steps else None


def disj_holds(cf, pred):
    """every branch of some disjunctive fact (or the plain facts) satisfies pred(set of facts)"""
    if pred(cf):
        return True
    for t, v in cf:
        if v and t.op == 'orf':
            br = [{(x.a[0].a[0], not x.a[1]) if x.a[0].op == 'not' else (x.a[0], bool(x.a[1])) for x in c.a} for c in t.a]
            if all(pred(cf | b) for b in br):
                return True
    return False


def int_lin(t):
    """linear integer form {atom: coefficient}; the constant is under None"""
    if t.op == 'const' and len(t.a) > 1 and isinstance(t.a[1], int):
        return {None: t.a[1]} if t.a[1] else {}
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        d = dict(int_lin(t.a[1]))
        for k, v in int_lin(t.a[2]).items():
            d[k] = d.get(k, 0) + (v if t.a[0] == 'Add' else -v)
        return {k: v for k, v in d.items() if v}
    if t.op == 'bin' and t.a[0] == 'Mul':
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == 'const' and isinstance(x.a[1], int):
                return {k: v * x.a[1] for k, v in int_lin(y).items() if v * x.a[1]}
    return {t: 1}


def leq(*terms):
    """the fact sum(coef*atom) <= 0 as a comparable key"""
    d = {}
    for t, c in terms:
        for k, v in (int_lin(t).items() if t is not None else [(None, 1)]):
            d[k] = d.get(k, 0) + v * c
    return frozenset((k, v) for k, v in d.items() if v)


INT_ATOMS = ('field', 'param', 'call', 'vf', 'phi', 'index', 'elem')


def ineqs(cf):
    """every fact `linear form <= 0` that the (in)equalities among the facts state"""
    out = set()
    for f, v in cf:
        if f.op == 'lt':
            a, b = f.a
            out.add(leq((a, 1), (b, -1), (None, 1)) if v else leq((b, 1), (a, -1)))
            if not v and b.op == 'const' and b.a[1] == 0:
                pass
        elif f.op == 'eq' and v:
            out.add(leq((f.a[0], 1), (f.a[1], -1)))
            out.add(leq((f.a[1], 1), (f.a[0], -1)))
    # equal quantities stand for each other
    eqs = [(a, b) for f, v in cf if v and f.op == 'eq' for a, b in ((f.a[0], f.a[1]), (f.a[1], f.a[0])) if a.op in INT_ATOMS]
    if eqs and len(eqs) <= 16:
        for _ in range(2):
            new = set()
            for q in out:
                d = dict(q)
                for a, b in eqs:
                    if a in d:
                        k = leq(*[(x if x is not a else b, c) if x is not None else (None, c) for x, c in q])
                        if k and k not in out:
                            new.add(k)
            out |= new
            if len(out) > 400:
                break
    return out


def true_cases(run, val=True):
    """canonical fact sets under which a boolean function returns val, one per way of doing so"""
    out = []
    for e in run.exits:
        for leaf, g in value_alts(e.ret):
            st = run.an.assume(State(e.st.mem, e.st.facts | g, e.st.vac), leaf, val)
            if st is not None:
                out.append((canon_facts(run.N, st.facts), st.facts))
    return out
