"""Interned terms used by the abstract interpreter."""
import sys
sys.setrecursionlimit(20000)

class T:
    __slots__ = ('op', 'a', 'id', '_deps', '_sub', '_r')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + a
    t = T._tab.get(k)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.a = a
        T._n += 1
        t.id = T._n
        t._deps = None
        t._sub = None
        t._r = None
        T._tab[k] = t
    return t


PHI_ALTS = {}   # phi term -> set of alternative terms
PHI_ROW = {}    # phi term -> (join, its alternatives in the order of the joined states)
PHI_GATE = {}   # phi term -> {alternative: facts that hold on every path on which that alternative is chosen}


def phi(key):
    return mk('phi', key)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 9:
        return '…'
    o, a = t.op, t.a
    if o == 'param':
        return '$%s' % a[1]
    if o == 'const':
        return repr(a[1]) if isinstance(a[1], str) else str(a[1])
    if o == 'field':
        return show(a[0], d + 1) + '.' + a[1]
    if o == 'vf':
        return '%s.%s!' % (show(a[0], d + 1), a[1]) + ('' if a[2] == '0' else a[2])
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1:]))
    if o == 'mut':
        return 'mut:%s#%s(%s)' % (a[0], a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if o == 'adt':
        return '%s::%s{%s}' % (str(a[0]).split('::')[-1], a[1], ', '.join('%s:%s' % (n, show(v, d + 1)) for n, v in a[2]))
    if o == 'phi':
        return 'phi%d' % t.id
    if o in ('tuple', 'array'):
        return '[' + ', '.join(show(x, d + 1) for x in a) + ']'
    if o == 'ref':
        return '&%s%s' % (show(a[0], d + 1), ''.join('.' + str(show(x, d + 1)) for x in a[1]))
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))


def children(t):
    """sub-terms of t (one level, flattening nested tuples); a phi's children are its alternatives"""
    if t.op == 'phi':
        return list(PHI_ALTS.get(t, ()))
    out = []

    def rec(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    for x in t.a:
        rec(x)
    return out


def subterms(t):
    """all transitively reachable sub-terms (through phis), including t"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def mentions(t, x):
    """syntactic containment, not through phi alternatives"""
    if t is x:
        return True
    if t.op == 'phi':
        return False
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen or y.op == 'phi':
            continue
        seen.add(y)
        st.extend(children(y))
    return False


TRUE = mk('const', 'bool', 1)
FALSE = mk('const', 'bool', 0)
UNIT = mk('tuple')


def is_bool_const(t):
    return t.op == 'const' and t.a[0] == 'bool'


def subst(t, m, memo=None):
    """replace sub-terms by mapping m (dict T->T)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == 'phi' or not t.a:
        return t

    def rec(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        return x
    na = tuple(rec(x) for x in t.a)
    r = t if na == t.a else mk(t.op, *na)
    memo[t] = r
    return r
