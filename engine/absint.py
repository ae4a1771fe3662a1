"""Path-condition dataflow over MIR.

A forward must-analysis: for every program point it computes (a) a symbolic value (value-numbered
term) for each place and (b) the set of facts that hold on EVERY path to that point.  Facts from
different paths are intersected at joins; states are only kept apart by the value of live
boolean / enum-variant flags (property-simulation style), never enumerated per path.  Calls to crate
functions are analysed in context (with the caller's values), std combinators are modelled.
"""
from terms import *
from terms import PHI_ALTS, PHI_GATE, PHI_ROW

SHORT_ADT = {p + m + n: n for p in ("std::", "core::") for m, n in (("option::", "Option"), ("result::", "Result"), ("ops::", "ControlFlow"), ("ops::control_flow::", "ControlFlow"))}
from program import short_name, clean_name

MAXDEPTH = 14

TWO = {'Some': 'None', 'None': 'Some', 'Ok': 'Err', 'Err': 'Ok', 'Continue': 'Break', 'Break': 'Continue'}
PAYLOAD_VARIANT = {'Some', 'Ok', 'Continue'}

IDENT_REF = {  # keep the reference / container identity
    'Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
    'BorrowMut::borrow_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'String::as_bytes',
    'str::as_bytes', 'Box::as_ref', 'Box::as_mut', 'slice::as_ref', 'Pin::new', 'String::as_mut_vec',
    'Vec::by_ref', 'Iterator::by_ref', 'Option::as_deref',
    'array::as_slice', 'array::as_mut_slice', 'slice::as_mut', 'hint::black_box',
    'vec::into_boxed_slice', 'Vec::into_boxed_slice', 'str::as_ref', 'array::as_ref', 'Read::by_ref',
}
IDENT_VAL = {
    'Clone::clone', 'ToOwned::to_owned', 'slice::to_vec', 'Option::cloned', 'Option::copied', 'Result::cloned',
    'Result::copied', 'Box::new', 'Option::as_ref', 'Result::as_ref', 'Iterator::cloned', 'Iterator::copied',
 'Iterator::fuse', 'Iterator::peekable', 'slice::into_vec', 'Rc::new', 'Arc::new',
    'mem::take_dummy', 'str::to_string', 'ToString::to_string_dummy', 'boxed::box_new', 'slice::to_owned',
    'Iterator::by_ref', 'box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe', 'String::into_bytes',
    'Cow::into_owned', 'String::from_utf8_lossy_dummy', 'Copied::into_inner', 'Choice::unwrap_u8',
    'hint::must_use', 'IteratorExt::into_iter',
}
ITER_OF = {'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'HashMap::iter', 'HashMap::iter_mut',
           'BTreeMap::iter', 'BTreeMap::iter_mut', 'Vec::drain', 'HashMap::drain', 'HashSet::iter', 'BTreeSet::iter', 'Option::iter',
           'array::iter', 'Iter::iter', 'IntoIterator::into_iter', 'array::into_iter', 'HashMap::into_iter'}
VALUES = {'HashMap::values', 'HashMap::values_mut', 'HashMap::into_values', 'BTreeMap::values', 'BTreeMap::values_mut', 'BTreeMap::into_values'}
KEYS = {'HashMap::keys', 'HashMap::into_keys', 'BTreeMap::keys', 'BTreeMap::into_keys'}
ITERS = {'iter', 'imap', 'ifilter', 'ifilter_map', 'ienum', 'izip', 'iskip', 'itake', 'ichain', 'itakewhile', 'iskipwhile', 'iflat', 'iinspect', 'istep', 'irev'}
INT_TYS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 7, 'i16': 15, 'i32': 31, 'i64': 63, 'i128': 127, 'isize': 63, 'bool': 1, 'char': 21}


SHARES = {'share::poly::PriPoly::shares': 'share::poly::PriPoly::eval', 'share::poly::PubPoly::shares': 'share::poly::PubPoly::eval'}


def some_share(c, i):
    """the list of the first n shares of a polynomial holds its value at i in position i"""
    return mk('adt', 'Option', 'Some', (('0', mk('call', SHARES[c.a[0]], c.a[1], i)),))


class State:
    __slots__ = ('mem', 'facts', 'vac', 'gate')

    def __init__(self, mem, facts, vac):
        self.mem = mem
        self.facts = facts
        self.vac = vac
        self.gate = None     # facts of the iteration a loop-carried value comes from, where the state ends one

    def copy(self):
        return State(dict(self.mem), self.facts, self.vac)

    def with_facts(self, fs):
        s = State(dict(self.mem), self.facts | frozenset(fs), self.vac)
        return s


class Event:
    __slots__ = ('kind', 'name', 'clean', 'args', 'facts', 'stack', 'line', 'file', 'recv', 'val', 'extra', 'fn', 'state', 'dty', 'site')

    def __repr__(self):
        return '%s %s(%s) recv=%s @%s:%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args), show(self.recv) if self.recv else None, self.file, self.line)


class Give(Exception):
    pass


class Analyzer:
    _fid = 0

    def __init__(self, prog, opaque=(), opaque_pred=None, max_parts=48, want_panics=False):
        self.P = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred or (lambda clean, c: clean.startswith('group::'))
        self.events = []
        self.record = 0
        self.stack = []
        self.rev_loops = set()
        self.skips = {}
        self.skip_sink = None
        self.max_parts = max_parts
        self.frame_ids = {}
        self.want_panics = want_panics
        self.visits = 0
        self.calls_seen = set()
        self.fns_seen = set()
        self.inlined = set()
        self.budget = 400000
        self.nodisj = set()
        self.itersrc = {}
        self.entries = {}
        self.lists = {}

    # ------------------------------------------------------------------ terms
    def field(self, v, name):
        o = v.op
        if o == 'adt':
            for n, x in v.a[2]:
                if n == name:
                    return x
        elif o == 'tuple':
            i = int(name) if name.isdigit() else None
            if i is not None and i < len(v.a):
                return v.a[i]
        elif o == 'closure':
            return v.a[1][int(name)]
        elif o == 'upd':
            for n, x in v.a[1]:
                if n == name:
                    return x
            return self.field(v.a[0], name)
        elif o == 'as':
            return self.payload(v.a[0], v.a[1], name)
        return mk('field', v, name)

    def payload(self, t, var, name='0'):
        if t.op == 'adt':
            if t.a[1] == var:
                return self.field(t, name)
            return mk('vf', t, var, name)
        if t.op == 'upd':
            for n, x in t.a[1]:
                if n == name:
                    return x
            return self.payload(t.a[0], var, name)
        if t.op == 'call':
            n = t.a[0]
            if n == 'get' and var == 'Some':
                return self.index(t.a[1], t.a[2])
            if n == 'first' and var == 'Some':
                return self.index(t.a[1], mk('const', 'usize', 0))
            if n in ('try_into', 'try_from') and var == 'Ok':
                return t.a[1]
        return mk('vf', t, var, name)

    def index(self, c, i):
        if c.op == 'array' and i.op == 'const' and 0 <= i.a[1] < len(c.a):
            return c.a[i.a[1]]
        if i.op == 'elem' and i.a[0].op == 'adt' and i.a[0].a[0].endswith('ops::Range'):
            r = dict(i.a[0].a[2])
            if r['start'].op == 'const' and r['start'].a[1] == 0 and r['end'] is mk('call', 'len', c):
                return self.elem_of(c, i.a[1])
        while c.op == 'mut' and c.a[0] in ('store', 'insert') and len(c.a) == 5:
            if c.a[3] is i:
                return c.a[4]
            if not (c.a[3].op == 'const' and i.op == 'const'):
                break
            c = c.a[2]
        if c.op == 'call' and c.a[0] in SHARES and len(c.a) == 3:
            return some_share(c, i)
        return mk('index', c, i)

    def elem_of(self, c, L):
        """the element of container value c visited by loop L"""
        if c.op == 'coll':
            e, c0, L0 = c.a
            return subst(e, {mk('lid', L0): mk('lid', L)}) if False else subst_loop(e, L0, L)
        if c.op == 'call' and c.a[0] == 'values':
            return self.field(mk('elem', c.a[1], L), '1')
        if c.op == 'call' and c.a[0] == 'keys':
            return self.field(mk('elem', c.a[1], L), '0')
        if c.op == 'call' and c.a[0] in SHARES and len(c.a) == 3:
            return some_share(c, mk('elem', mk('adt', 'std::ops::Range', 'Range', (('start', mk('const', 'int', 0)), ('end', c.a[2]))), L))
        return mk('elem', c, L)

    def length(self, c):
        if c.op == 'array':
            return mk('const', 'usize', len(c.a))
        if c.op == 'coll' and c.a[0] is not None:
            pass
        if c.op == 'call' and c.a[0] in ('values', 'keys', 'rev') and len(c.a) == 2:
            return self.length(c.a[1])
        if c.op == 'call' and c.a[0] == 'chain' and len(c.a) == 3:
            return self.arith('Add', self.length(c.a[1]), self.length(c.a[2]))
        if c.op == 'call' and c.a[0] in SHARES and len(c.a) == 3:
            return c.a[2]
        return mk('call', 'len', c)

    def project(self, v, el):
        k = el[0]
        if k == 'f':
            return self.field(v, el[1])
        if k == 'dc':
            if v.op == 'adt':
                return v
            return mk('as', v, el[1])
        if k == 'i':
            return self.index(v, el[1])
        if k == 'rg':
            return mk('call', 'slice', v, el[1])
        if k == 's':
            return mk('call', 'slice', v, mk('const', 'usize', el[1]), mk('const', 'int', el[2]), mk('const', 'bool', int(bool(el[3]))))
        return mk('proj', v, str(el))

    def update(self, v, path, new):
        if not path:
            return new
        el, rest = path[0], path[1:]
        if el[0] == 'dc':
            if rest and rest[0][0] == 'f' and v.op != 'adt':
                n = rest[0][1]
                d = dict(v.a[1]) if v.op == 'upd' else {}
                cur = d[n] if n in d else self.payload(v, el[1], n)
                d[n] = self.update(cur, rest[1:], new)
                return mk('upd', v.a[0] if v.op == 'upd' else v, tuple(sorted(d.items())))
            return self.update(v, rest, new)
        if el[0] == 'f':
            n = el[1]
            cur = self.field(v, n)
            nv = self.update(cur, rest, new)
            if v.op == 'adt':
                return mk('adt', v.a[0], v.a[1], tuple((a, nv if a == n else b) for a, b in v.a[2]))
            if v.op == 'tuple' and n.isdigit() and int(n) < len(v.a):
                l = list(v.a)
                l[int(n)] = nv
                return mk('tuple', *l)
            if v.op == 'closure':
                l = list(v.a[1])
                l[int(n)] = nv
                return mk('closure', v.a[0], tuple(l))
            if v.op == 'upd':
                d = dict(v.a[1])
                d[n] = nv
                return mk('upd', v.a[0], tuple(sorted(d.items())))
            if v.op == 'as':
                return v
            return mk('upd', v, ((n, nv),))
        if el[0] == 'i':
            if v.op == 'array' and el[1].op == 'const' and 0 <= el[1].a[1] < len(v.a):
                l = list(v.a)
                l[el[1].a[1]] = self.update(l[el[1].a[1]], rest, new)
                return mk('array', *l)
            nv = self.update(self.index(v, el[1]), rest, new)
            return mk('mut', 'store', 0, v, el[1], nv)
        if el[0] == 'rg':
            return mk('mut', 'splice', 0, v, el[1], self.update(mk('call', 'slice', v, el[1]), rest, new))
        return mk('mut', 'store', 0, v, new)

    # ------------------------------------------------------------------ memory
    def read_root(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == 'O':
            return root[1]
        return mk('uninit', root)

    def read(self, st, root, path):
        v = self.read_root(st, root)
        for el in path:
            if v.op == 'ref' and el[0] != 'deref':
                v = self.read(st, v.a[0], v.a[1])
            v = self.project(v, el)
        return v

    def write(self, st, root, path, val):
        v = self.read_root(st, root)
        st.mem[root] = self.update(v, path, val)
        if root[0] == 'O' and self.itersrc:
            self.write_through(st, root)

    def write_through(self, st, root):
        """an element reached through a mutable iterator is part of its container"""
        t = root[1]
        e, part = (t, None) if t.op == 'elem' else (t.a[0], t.a[1]) if t.op == 'field' and t.a[0].op == 'elem' else (None, None)
        src = self.itersrc.get(e.a[0]) if e is not None else None
        if src is None:
            return
        root2, path2, is_map = src
        if root2 == root:
            return
        cur = self.read(st, root2, path2)
        new = st.mem[root]
        if is_map:
            if part != '1':
                return
            i = self.field(e, '0')
        else:
            i = mk('elem', mk('adt', 'std::ops::Range', 'Range', (('start', mk('const', 'int', 0)), ('end', self.length(e.a[0])))), e.a[1])
            if part is not None:
                new = self.update(e, (('f', part),), new)
        if cur.op == 'mut' and cur.a[0] == 'store' and len(cur.a) == 5 and cur.a[3] is i:
            cur = cur.a[2]
        self.write(st, root2, path2, mk('mut', 'store', 0, cur, i, new))

    def deep(self, st, t, depth=0):
        """replace references by the current value of what they point to"""
        if not t.a or t._r is False:
            return t
        if not has_ref(t):
            return t
        if depth > 8:
            return mk('deepref')
        if t.op == 'ref':
            return self.deep(st, self.read(st, t.a[0], t.a[1]), depth + 1)

        def rec(x):
            if isinstance(x, T):
                return self.deep(st, x, depth + 1)
            if isinstance(x, tuple) and t.op != 'ref':
                return tuple(rec(y) for y in x)
            return x
        na = tuple(rec(x) for x in t.a)
        if t.op == 'field':
            return self.field(na[0], na[1])
        return mk(t.op, *na) if na != t.a else t

    def place(self, st, fr, p):
        root = ('L', fr.fid, p[0])
        path = ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path)
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                elif v.op in ('adt', 'tuple', 'array', 'closure', 'upd') or v.op == 'mut' or v.op == 'call' and v.a[0] == 'Box::new_uninit':
                    # a box (or a value reached through an identity model): stay in place
                    pass
                else:
                    if path == () and root[0] == 'O':
                        pass
                    else:
                        root, path = ('O', v), ()
            elif k == 'f':
                n = e[2] if e[3] != 'closure' else str(e[1])
                if e[3] == 'std::mem::ManuallyDrop' and path[-1:] == (('f', '1'),):
                    path = path[:-1]      # the content of a MaybeUninit
                    continue
                path = path + (('f', n),)
            elif k == 'dc':
                path = path + (('dc', e[1]),)
            elif k == 'i':
                iv = self.deep(st, self.read(st, ('L', fr.fid, e[1]), ()))
                path = path + (('i', iv),)
            elif k == 'ci':
                if e[2]:
                    path = path + (('i', mk('fromend', e[1])),)
                else:
                    path = path + (('i', mk('const', 'usize', e[1])),)
            elif k == 'sub':
                path = path + (('s', e[1], e[2], e[3]),)
            else:
                path = path + (('oth',),)
            # auto-follow: a field of a place whose current value is itself a reference
        return root, path

    def operand(self, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            r, p = self.place(st, fr, o['p'])
            return self.read(st, r, p)
        if k == 'const':
            return self.const(st, fr, o)
        return mk('unknown', 'operand')

    def const(self, st, fr, o):
        if 'fn' in o:
            c = self.P.callee(o['fn'])
            t = mk('fnref', c.clean, id(o['fn']))
            self.fnrefs[t] = c
            return t
        if 'closure' in o:
            return mk('closure', o['closure'], ())
        if 'promoted' in o:
            return self.promoted(fr, o['promoted'])
        ty = o['ty']
        if 'v' in o:
            t = mk('const', 'bool' if ty == 'bool' else 'int', int(o['v']))
            return t
        if 'str' in o:
            return mk('const', 'str', o['str'])
        if 'item' in o:
            return mk('item', o['item'])
        if 'static' in o:
            return mk('item', o['static'])
        if ty == '()':
            return UNIT
        return mk('constv', ty, o.get('ct', ''))

    fnrefs = {}

    def promoted(self, fr, n):
        key = (fr.body.path, n)
        if key in self._prom:
            return self._prom[key]
        pb = fr.body.proms[n] if n < len(fr.body.proms) else None
        val = mk('promoted', fr.body.path, n)
        if pb is not None:
            try:
                f2 = Frame(self, _PB(fr.body, pb), ('prom', key))
                st = State({}, frozenset(), frozenset())
                b = 0
                for _ in range(50):
                    blk = pb['blocks'][b]
                    for s in blk['st']:
                        self.stmt(st, f2, s, None)
                    te = blk['te']
                    if te['t'] == 'return':
                        val = self.deep(st, self.read(st, ('L', f2.fid, 0), ()))
                        break
                    if te['t'] == 'call':
                        a = [self.deep(st, self.operand(st, f2, x)) for x in te['args']]
                        c = self.P.callee(te['f']['fn'])
                        if c.short in ITER_OF or c.short in IDENT_VAL or c.short in IDENT_REF:
                            v = a[0]
                        else:
                            v = mk('call', c.short, *a)
                        r, p = self.place(st, f2, te['dest'])
                        self.write(st, r, p, v)
                        b = te['to']
                    elif te['t'] in ('goto', 'drop', 'assert'):
                        b = te['to']
                    else:
                        break
            except Exception:
                pass
        self._prom[key] = val
        return val
    _prom = {}

    # ------------------------------------------------------------------ facts
    def norm_is(self, t, var):
        """-> True/False/(pred,bool)"""
        if t.op == 'adt':
            return t.a[1] == var
        if t.op == 'upd':
            return self.norm_is(t.a[0], var)
        if t.op == 'call':
            n = t.a[0]
            if n in ('get', 'first', 'last') and var in ('Some', 'None'):
                if n == 'get':
                    return (mk('has', t.a[1], t.a[2]), var == 'Some')
                return (mk('call', 'is_empty', t.a[1]), var == 'None')
            if n == 'insert_ret' and var in ('Some', 'None'):
                return (mk('has', t.a[1], t.a[2]), var == 'Some')
            if n == 'entry' and var in ('Vacant', 'Occupied'):
                return (mk('has', t.a[1], t.a[2]), var == 'Occupied')
        if var in ('None', 'Err', 'Break'):
            return (mk('is', t, TWO[var]), False)
        return (mk('is', t, var), True)

    def facts_of(self, c, val):
        """facts implied by boolean term c having value val; None when contradictory"""
        o = c.op
        if o == 'const':
            return [] if bool(c.a[1]) == val else None
        if o == 'not':
            return self.facts_of(c.a[0], not val)
        if o == 'istest':
            r = self.norm_is(c.a[0], c.a[1])
            if r is True or r is False:
                return [] if r == val else None
            return [(r[0], r[1] == val)]
        if o == 'and':
            if val:
                out = []
                for x in c.a:
                    f = self.facts_of(x, True)
                    if f is None:
                        return None
                    out += f
                return out
            live = [x for x in c.a if self.facts_of(x, False) is not None]
            if not live:
                return None
            if len(live) == 1:
                return self.facts_of(live[0], False)
            return [(c, False)]
        if o == 'or':
            if not val:
                out = []
                for x in c.a:
                    f = self.facts_of(x, False)
                    if f is None:
                        return None
                    out += f
                return out
            live = [x for x in c.a if self.facts_of(x, True) is not None]
            if not live:
                return None
            if len(live) == 1:
                return self.facts_of(live[0], True)
            return [(c, True)]
        if o == 'lt':
            out = [(c, val)]
            a, b = c.a
            if a.op == 'const' and b.op == 'const' and a.a[0] == 'int' and b.a[0] == 'int':
                return [] if (a.a[1] < b.a[1]) == val else None
            if b.op == 'call' and b.a[0] == 'len':
                out.append((mk('has', b.a[1], a), val))
            # 0 < len(x)  <=> !is_empty(x);   len(x) < 1 <=> is_empty(x)
            if a.op == 'const' and a.a[1] == 0 and b.op == 'call' and b.a[0] == 'len':
                out.append((mk('call', 'is_empty', b.a[1]), not val))
            if b.op == 'const' and b.a[1] == 1 and a.op == 'call' and a.a[0] == 'len':
                out.append((mk('call', 'is_empty', a.a[1]), val))
            return out
        if o == 'eq':
            a, b = c.a
            if a is b:
                return [] if val else None
            if a.op == 'const' and b.op == 'const' and a.a[0] == b.a[0]:
                return [] if (a.a[1] == b.a[1]) == val else None
            for x, y in ((a, b), (b, a)):
                if x.op == 'const' and x.a[0] == 'bool':
                    return self.facts_of(y, bool(x.a[1]) == val)
                if x.op == 'adt' and not x.a[2] and x.a[1] in ('None',):
                    return self.facts_of(mk('istest', y, 'None'), val)
                if x.op == 'const' and x.a[1] == 0 and y.op == 'call' and y.a[0] == 'len':
                    return [(c, val), (mk('call', 'is_empty', y.a[1]), val)]
            if a.op == 'adt' and b.op == 'adt' and a.a[1] != b.a[1] and not a.a[2] and not b.a[2]:
                return [] if not val else None
            return [(c, val)]
        if o == 'call' and c.a[0] == 'is_empty':
            if c.a[1].op == 'array':
                return [] if (len(c.a[1].a) == 0) == val else None
            return [(c, val)]
        return [(c, val)]

    def assume(self, st, c, val):
        """state refined by c == val, or None if contradictory"""
        fs = self.facts_of(c, val)
        if fs is None:
            return None
        new = []
        for f in fs:
            if (f[0], not f[1]) in st.facts:
                return None
            if f not in st.facts:
                new.append(f)
                # eq to a different constant
                if f[0].op == 'eq' and f[1]:
                    pass
        if not new:
            return st
        return st.with_facts(new)

    def cmp(self, op, a, b):
        if op == 'Lt':
            return mk('lt', a, b)
        if op == 'Gt':
            return mk('lt', b, a)
        if op == 'Le':
            return mk('not', mk('lt', b, a))
        if op == 'Ge':
            return mk('not', mk('lt', a, b))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'Ne':
            return mk('not', self.eq(a, b))

    def eq(self, a, b):
        if a.op == 'adt' and b.op != 'adt' and a.a[1] in ('Some', 'None'):
            a, b = b, a
        if b.op == 'adt' and b.a[1] in ('Some', 'None') and b.a[0].endswith('Option'):
            if a.op == 'adt' and a.a[1] in ('Some', 'None'):
                if a.a[1] != b.a[1]:
                    return FALSE
                return self.eq(a.a[2][0][1], b.a[2][0][1]) if a.a[1] == 'Some' else TRUE
            if b.a[1] == 'None':
                return mk('istest', a, 'None')
            return mk('and', mk('istest', a, 'Some'), self.eq(self.payload(a, 'Some', '0'), b.a[2][0][1]))
        if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a) and a.a:
            return mk('and', *[self.eq(x, y) for x, y in zip(a.a, b.a)])
        if b.id < a.id:
            a, b = b, a
        return mk('eq', a, b)

    def variants(self, st, t, vs):
        """fork st on the variant of t: list of (state, variant)"""
        t = self.deep(st, t) if t.op == 'ref' else t
        if t.op == 'adt':
            return [(st, t.a[1])]
        out = []
        for v in vs:
            s2 = self.assume(st, mk('istest', t, v), True)
            if s2 is not None:
                out.append((s2, v))
        return out

    # ------------------------------------------------------------------ statements
    def stmt(self, st, fr, s, ev):
        if s['s'] == 'dead':
            st.mem.pop(('L', fr.fid, s['x']), None)
            return
        if s['s'] == 'setd':
            return
        v = self.rvalue(st, fr, s['v'], s)
        r, p = self.place(st, fr, s['d'])
        if self.record and (r[0] == 'O' or (p and self.is_param_root(st, r))) and ev is not None:
            self.emit(st, fr, 'store', 'store', None, [], s.get('l'), recv=self.pdesc(st, r, p), val=self.deep(st, v))
        self.write(st, r, p, v)

    def is_param_root(self, st, r):
        v = st.mem.get(r)
        return v is not None and origin(v).op in ('param', 'field', 'vf', 'elem', 'index')

    def pdesc(self, st, root, path):
        t = root[1] if root[0] == 'O' else origin(self.read_root(st, root))
        for el in path:
            if el[0] == 'f':
                t = self.field(t, el[1])
            elif el[0] == 'dc':
                t = mk('as', t, el[1]) if t.op != 'adt' else t
            elif el[0] == 'i':
                t = mk('index', t, el[1])
        return t

    def rvalue(self, st, fr, v, s=None):
        r = v['r']
        if r == 'use':
            return self.operand(st, fr, v['o'])
        if r in ('ref', 'raw'):
            root, path = self.place(st, fr, v['p'])
            if root[0] == 'O' and not path and root not in st.mem:
                return root[1] if not v.get('m') else mk('ref', root, path)
            cur = self.read(st, root, path)
            if cur.op == 'ref' and False:
                return cur
            return mk('ref', root, path)
        if r == 'cast':
            x = self.operand(st, fr, v['o'])
            f, t = v['from'], v['ty']
            if f in INT_TYS and t in INT_TYS:
                x = self.deep(st, x)
                if x.op == 'const':
                    return mk('const', 'int', x.a[1])
                if INT_TYS[t] >= INT_TYS[f]:
                    return x
                return mk('cast', t, x)
            return x
        if r == 'bin':
            a = self.deep(st, self.operand(st, fr, v['a']))
            b = self.deep(st, self.operand(st, fr, v['b']))
            op = v['op']
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
                return self.cmp(op, a, b)
            if v['ty'] == 'bool' and base == 'BitAnd':
                return mk('and', a, b)
            if v['ty'] == 'bool' and base == 'BitOr':
                return mk('or', a, b)
            if v['ty'] == 'bool' and base == 'BitXor':
                return mk('not', self.eq(a, b))
            val = self.arith(base, a, b)
            if op.endswith('WithOverflow'):
                return mk('tuple', val, FALSE)
            return val
        if r == 'un':
            a = self.deep(st, self.operand(st, fr, v['a']))
            if v['op'] == 'Not':
                if is_bool_const(a):
                    return FALSE if a.a[1] else TRUE
                return mk('not', a)
            if v['op'] == 'PtrMetadata':
                return self.length(a)
            if a.op == 'const' and v['op'] == 'Neg':
                return mk('const', 'int', -a.a[1])
            return mk('un', v['op'], a)
        if r == 'discr':
            root, path = self.place(st, fr, v['p'])
            t = self.deep(st, self.read(st, root, path))
            if not v['vs']:
                return mk('discr', t, ())
            return mk('discr', t, tuple((int(a), b) for a, b in v['vs']))
        if r == 'agg':
            ops = [self.operand(st, fr, o) for o in v['ops']]
            ak = v['ak']
            if ak == 'tuple':
                return mk('tuple', *ops)
            if ak == 'array':
                return mk('array', *ops)
            if ak == 'adt':
                return mk('adt', SHORT_ADT.get(v['adt'], v['adt']), v['var'], tuple(zip(v['fields'], ops)))
            if ak == 'closure':
                return mk('closure', v['def'], tuple(ops))
            return mk('call', 'agg', *ops)
        if r == 'repeat':
            return mk('call', 'repeat', self.operand(st, fr, v['o']), mk('const', 'str', v['n']))
        return mk('unknown', v.get('d', ''))

    def arith(self, op, a, b):
        if a.op == 'const' and b.op == 'const':
            x, y = a.a[1], b.a[1]
            try:
                if op == 'Add':
                    return mk('const', 'int', x + y)
                if op == 'Sub' and x >= y:
                    return mk('const', 'int', x - y)
                if op == 'Mul':
                    return mk('const', 'int', x * y)
                if op == 'Div' and y:
                    return mk('const', 'int', x // y)
            except Exception:
                pass
        if op in ('Add', 'Mul') and b.id < a.id:
            a, b = b, a
        if op == 'Add':   # x - 1 + 1
            for x, y in ((a, b), (b, a)):
                if x.op == 'bin' and x.a[0] == 'Sub' and x.a[2] is y:
                    return x.a[1]
        if op == 'Sub':
            if a.op == 'bin' and a.a[0] == 'Add':
                if a.a[1] is b:
                    return a.a[2]
                if a.a[2] is b:
                    return a.a[1]
        return mk('bin', op, a, b)

    # ------------------------------------------------------------------ events
    def emit(self, st, fr, kind, name, clean, args, line, recv=None, val=None, extra=None, dty=None, site=None):
        e = Event()
        e.kind, e.name, e.clean, e.args = kind, name, clean, args
        e.facts = st.facts
        e.stack = tuple(f.body.clean for f in self.stack)
        e.line = line
        e.file = fr.body.loc[0] if fr else '?'
        e.fn = fr.body.clean if fr else '?'
        e.recv, e.val, e.extra, e.dty = recv, val, extra, dty
        e.state = st
        e.site = site
        self.events.append(e)

    # ------------------------------------------------------------------ function analysis
    def run(self, body, args=None, facts=()):
        """analyse body as an entry point. Returns list of (state, ret). Parameters are symbolic."""
        st = State({}, frozenset(facts), frozenset())
        a = []
        for i in range(1, body.argc + 1):
            ty = body.locals[i]['ty']
            if args is not None and i - 1 < len(args) and args[i - 1] is not None:
                p = args[i - 1]
            else:
                p = mk('param', i, body.locals[i].get('n', '_%d' % i))
            if ty.startswith('&'):
                root = ('O', p)
                st.mem[root] = p
                a.append(mk('ref', root, ()))
            else:
                a.append(p)
        self.events = []
        self.record = 1
        res = self.call_body(st, body, a, ('entry', body.path))
        self.record = 0
        out = []
        for s, r in res:
            out.append((s, self.deep(s, r)))
        return out

    def frame_id(self, key):
        i = self.frame_ids.get(key)
        if i is None:
            Analyzer._fid += 1
            i = Analyzer._fid
            self.frame_ids[key] = i
        return i

    def call_body(self, st, body, args, site):
        """inline-analyse body; returns list of (state, ret)"""
        body = body.unrolled()
        fr = Frame(self, body, (self.stack[-1].fid if self.stack else 0, site))
        self.fns_seen.add(body.clean)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a
        self.stack.append(fr)
        try:
            rets = self.fix(st, fr)
        finally:
            self.stack.pop()
        # classify exits
        groups = {}
        for s in rets:
            r = self.read(s, ('L', fr.fid, 0), ())
            r = self.deref_local(s, fr, r)
            mem = {k: v for k, v in s.mem.items() if not (k[0] == 'L' and k[1] == fr.fid) or v.op == 'array' and not v.a and k[2] in fr.addr}
            groups.setdefault((vclass(r, 2), tuple(self.outer_sig(s, fr))), []).append((State(mem, s.facts, s.vac), r))
        out = []
        RET = ('R', fr.fid)
        for k, lst in groups.items():
            if len(lst) == 1:
                out.append(lst[0])
                continue
            sts = []
            for s, r in lst:
                s.mem[RET] = r
                sts.append(s)
            m = self.join(sts, (fr.fid, 'exit', k))
            r = m.mem.pop(RET)
            out.append((m, r))
        return out

    def deref_local(self, st, fr, t):
        """value leaving the frame: references to its own locals become values"""
        if t.op == 'ref' and t.a[0][0] == 'L' and t.a[0][1] == fr.fid:
            return self.deref_local(st, fr, self.read(st, t.a[0], t.a[1]))
        if not has_ref(t):
            return t

        def rec(x):
            if isinstance(x, T):
                return self.deref_local(st, fr, x)
            if isinstance(x, tuple) and t.op != 'ref':
                return tuple(rec(y) for y in x)
            return x
        na = tuple(rec(x) for x in t.a) if t.op != 'ref' else t.a
        return mk(t.op, *na) if na != t.a else t

    def fix(self, st0, fr):
        body = fr.body
        cfg = body.cfg()
        rpo, idx = cfg['rpo'], cfg['idx']
        edges = {('in', 0): [st0]}
        inst = {}
        rets = {}
        import heapq
        work = [0]
        inq = {0}
        visits = {}
        rec = self.record
        self.record = 0
        while work:
            i = heapq.heappop(work)
            b = rpo[i]
            inq.discard(i)
            self.budget -= 1
            if self.budget < 0:
                raise Give('budget exhausted in ' + body.clean)
            ins = self.block_in(fr, b, cfg, edges, visits.get(b, 0))
            if b in inst and same_states(inst[b], ins):
                continue
            inst[b] = ins
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 60:
                raise Give('no fixpoint in ' + body.clean)
            outs = {}
            inner = cfg['inner'].get(b)
            LI = (fr.fid, inner)
            self.skips.pop(LI, None)
            for s in ins:
                for tgt, s2 in self.block(s, fr, b):
                    outs.setdefault(tgt, []).append(s2)
            sk = self.skips.pop(LI, None)
            if sk is not None and inner is not None:
                key = (('skip', b), inner)
                if key not in edges or not same_states(edges[key], sk):
                    edges[key] = sk
                    if idx[inner] not in inq:
                        inq.add(idx[inner])
                        heapq.heappush(work, idx[inner])
            if body.blocks[b]['te']['t'] == 'return':
                rets[b] = outs.get('ret', [])
            for t in set(body.succs(b)):
                ns = outs.get(t, [])
                old = edges.get((b, t))
                if old is not None and same_states(old, ns):
                    continue
                if old is None and not ns:
                    continue
                edges[(b, t)] = ns
                if idx[t] not in inq:
                    inq.add(idx[t])
                    heapq.heappush(work, idx[t])
        self.record = rec
        if rec:
            # final pass over the stable solution, recording events
            for b in rpo:
                for s in inst.get(b, []):
                    for tgt, s2 in self.block(s, fr, b):
                        pass
        out = []
        for l in rets.values():
            out.extend(l)
        return out

    def block_in(self, fr, b, cfg, edges, nvis):
        is_head = b in cfg['loops']
        L = (fr.fid, b)
        live = cfg['live'][b]
        incoming = []
        dj = {}
        if is_head:
            # what holds of one iteration, whichever way it went
            backs = {}
            for key, sts in edges.items():
                if key[1] == b and ((key[0], b) in cfg['back'] or isinstance(key[0], tuple)):
                    for s in sts:
                        backs.setdefault(self.signature(s, fr, live), []).append(s)
            for sig, l in backs.items():
                if 2 <= len(l) <= 4 and nvis <= 12:
                    fsets = [frozenset(f for f in s.facts if loop_kind(f[0], L) == 1) for s in l]
                    com = fsets[0]
                    for f in fsets[1:]:
                        com = com & f
                    d = self.disj(fsets, com, None, True)
                    for s in l:
                        dj[id(s)] = d
        dn = mk('done', L)
        for key, sts in edges.items():
            if key[1] != b:
                continue
            backe = (key[0], b) in cfg['back'] or isinstance(key[0], tuple)
            for s in sts:
                if is_head:
                    if (dn, True) in s.facts:
                        s = State(s.mem, s.facts - {(dn, True)}, s.vac)
                    if backe:
                        fs = []
                        for f in dj.get(id(s), ()):
                            g = (subst_loop(f[0], L, ('each', L)), f[1])
                            if L in s.vac or entails(s.facts, g):
                                fs.append(g)
                        for f in s.facts:
                            ks = loop_kind(f[0], L)
                            if ks == 0:
                                fs.append(f)
                            elif ks == 1:  # mentions elem(L) only
                                g = (subst_loop(f[0], L, ('each', L)), f[1])
                                if L in s.vac or entails(s.facts, g):
                                    fs.append(g)
                        g = gate_facts(s, L)
                        s = State(prev_mem(s.mem, L), frozenset(f for f in fs if ('prev', L) not in loops_in(f[0])), s.vac - {L})
                        s.gate = g
                    else:
                        fs = frozenset(f for f in s.facts if loop_kind(f[0], L) == 0)
                        s = State(s.mem, fs, s.vac | {L})
                incoming.append(s)
        if not incoming:
            return []
        groups = {}
        merge_all = nvis > 25
        for s in incoming:
            # drop dead locals
            mem = {}
            for k, v in s.mem.items():
                if k[0] == 'L' and k[1] == fr.fid and k[2] not in live and k[2] not in fr.addr:
                    continue
                mem[k] = v
            gate = s.gate
            s = State(mem, s.facts, s.vac)
            s.gate = gate
            sig = None if merge_all else self.signature(s, fr, live)
            groups.setdefault(sig, []).append(s)
        if len(groups) > self.max_parts:
            allst = [s for l in groups.values() for s in l]
            groups = {None: allst}
        if is_head:
            for sig in groups:
                self.nodisj.add((fr.fid, b, sig))
        res = [self.join(l, (fr.fid, b, sig)) for sig, l in groups.items()]
        if is_head and b in cfg['ctr']:
            for c in cfg['ctr'][b]:
                root = ('L', fr.fid, c)
                start = {s.mem.get(root) for s in incoming if L in s.vac}
                if len(start) != 1 or None in start:
                    continue
                start = start.pop()
                for s in res:
                    if root in s.mem:
                        s.mem[root] = mk('ctr', L, c, start, s.mem[root])
        return res

    def counted(self, st, fr, b, te):
        """the test of a loop that counts: what it counts over, or the states unchanged"""
        cfg = fr.body.cfg()
        h = cfg['inner'].get(b)
        cs = cfg['ctr'].get(h, {})
        L = (fr.fid, h)
        for c, (step, tb, out) in cs.items():
            root = ('L', fr.fid, c)
            k = st.mem.get(root)
            if tb != b or k is None or k.op != 'ctr':
                continue
            _, _, start, fall = k.a
            cond = self.deep(st, self.operand(st, fr, te['o']))
            vals = [int(x) for x, y in te['ts']]
            inval = None
            if te['ty'] == 'bool' and len(vals) == 1:
                inval = bool(vals[0]) if te['ts'][0][1] != out else not vals[0]
            while cond.op == 'not':
                cond, inval = cond.a[0], (not inval if inval is not None else None)
            rng = self.count_range(cond, inval, k, step, start, h, fr)
            if te['ty'] != 'bool' and len(vals) == 1 and vals[0] == 0 and te['ts'][0][1] == out and cond is k and step == -1:
                rng = (mk('const', 'int', 0), start)      # switch on the counter itself
            if rng is None:
                new, fs = fall, None
            else:
                R = mk('adt', 'std::ops::Range', 'Range', (('start', rng[0]), ('end', rng[1])))
                e = mk('elem', R, L)
                new = e if step > 0 else self.arith('Add', e, mk('const', 'int', 1))
            memo = {}
            m = {k: new}
            mem = {r: (v if r == root else resub(v, m, memo)) for r, v in st.mem.items()}
            st = State(mem, frozenset((resub(f, m, memo), v) for f, v in st.facts if f.op != 'done' or f.a[0] != L), st.vac)
            st.mem[root] = new
            if rng is None:
                continue
            if step < 0:
                self.rev_loops.add(L)
            inn = self.assume(st, mk('lt', e, rng[1]), True)
            ex = State(dict(st.mem), frozenset(f for f in st.facts if loop_kind(f[0], L) != 1) | {(mk('done', L), True)}, st.vac)
            z = rng[0]
            ex.mem[root] = start if rng[0] is rng[1] else z if step < 0 else rng[1] if z.op == 'const' and z.a[1] == 0 else mk('call', 'max', z, rng[1])
            ins = [y for y in [y for x, y in te['ts']] + [te['else']] if y != out][0]
            return st, [(ins, inn)] * (inn is not None) + [(out, ex)]
        return st, None

    def count_range(self, cond, inval, k, step, start, h, fr):
        """(start, end) of the values counted through when `cond == inval` keeps the loop going"""
        if inval is None:
            return None
        one, zero = mk('const', 'int', 1), mk('const', 'int', 0)

        def fixed(t):
            return not varies(t, k, (fr.fid, h))

        def plain(t):   # the length of a container only stored into is the length it began with
            if t.op == 'call' and t.a[0] == 'len' and len(t.a) == 2 and t.a[1].op in ('phi', 'mut'):
                import norm
                return mk('call', 'len', norm.same_length(t.a[1]))
            return t
        if cond.op in ('lt', 'eq'):
            cond = T_like(cond, plain)
        if cond.op == 'lt':
            a, b = cond.a
            if step > 0 and a is k and inval and fixed(b):
                return (start, b)
            if step > 0 and b is k and not inval and fixed(a):
                return (start, self.arith('Add', a, one))
            if step < 0 and b is k and inval and fixed(a):
                return (a, start) if a is zero else (self.arith('Add', a, one), self.arith('Add', start, one)) if False else None
            if step < 0 and a is k and not inval and b is one:
                return (zero, start)
        if cond.op == 'eq' and not inval:
            o = cond.a[1] if cond.a[0] is k else cond.a[0] if cond.a[1] is k else None
            if o is not None and fixed(o):
                if step > 0 and start is zero:
                    return (start, o)
                if step < 0 and o is zero:
                    return (zero, start)
        return None

    def signature(self, s, fr, live):
        sig = []
        for n in fr.flag_locals:
            if n in live or n in fr.addr:
                v = s.mem.get(('L', fr.fid, n))
                if v is not None:
                    if v.op == 'ref':
                        continue
                    c = vclass(v, 2)
                    if c is not None:
                        sig.append((n, c))
                    elif v.op not in ('uninit',) and fr.is_two[n]:
                        # symbolic Option/Result with a known variant
                        for var in ('Some', 'Ok', 'Continue'):
                            f = self.norm_is(v, var)
                            if f is True or f is False:
                                continue
                            if f in s.facts:
                                sig.append((n, var))
                                break
                            if (f[0], not f[1]) in s.facts:
                                sig.append((n, '!' + var))
                                break
        sig += self.outer_sig(s, fr)
        return tuple(sig)

    def outer_sig(self, s, fr):
        """flags of the calling frames that this frame can reach by reference"""
        sig = []
        for g in self.stack:
            if g is fr:
                continue
            for n in g.flag_locals:
                if n in g.addr:
                    v = s.mem.get(('L', g.fid, n))
                    if v is not None and v.op != 'ref':
                        c = vclass(v, 1)
                        if c is not None:
                            sig.append((g.fid, n, c))
        return sig

    def join(self, sts, key):
        if len(sts) == 1:
            return sts[0]
        roots = set(sts[0].mem)
        for s in sts[1:]:
            roots |= set(s.mem)
        mem = {}
        made = []
        for r in roots:
            vals = []
            for s in sts:
                v = s.mem.get(r)
                if v is None:
                    if r[0] == 'O':
                        v = r[1]
                    else:
                        vals = None
                        break
                vals.append(v)
            if vals is None:
                # unset on some way here (so not readable before being set again, except through a reference made where it was set)
                vs = {s.mem[r] for s in sts if r in s.mem}
                if len(vs) == 1:
                    v = vs.pop()
                    if v.op == 'const' or v.op == 'array' and all(x.op == 'const' for x in v.a):
                        mem[r] = v
                continue
            mem[r] = self.join_vals(vals, (key, r), made)
        for ph, vals in made:
            PHI_ROW[ph] = (key, tuple(vals))
            g = PHI_GATE.setdefault(ph, {})
            for s, v in zip(sts, vals):
                sf = s.facts if s.gate is None else s.facts | s.gate
                g[v] = (g[v] & sf) if v in g else sf
        # facts
        vac = sts[0].vac
        allvac = set()
        for s in sts:
            vac = vac & s.vac
            allvac |= s.vac
        fsets = []
        for s in sts:
            fs = s.facts
            # facts about a phi (re)defined here survive only from states that already hold that phi
            kill = [ph for ph, vals in made if vals[sts.index(s)] is not ph] if made else []
            if kill:
                fs = frozenset(f for f in fs if not any(mentions(f[0], k) for k in kill))
            fsets.append(fs)
        if not allvac - vac:
            out = fsets[0]
            for f in fsets[1:]:
                out = out & f
            out = out | self.disj(fsets, out, key)
        else:
            cand = set().union(*fsets)
            out = set()
            for f in cand:
                ok = True
                for s, fs in zip(sts, fsets):
                    if f in fs:
                        continue
                    ls = each_loops(f[0])
                    if ls and any(l in s.vac for l in ls):
                        continue
                    ok = False
                    break
                if ok:
                    out.add(f)
            out = frozenset(out)
        return State(mem, out, vac)

    def disj(self, fsets, common, key, loop=False):
        """a disjunctive fact for small residual differences at an (acyclic) join"""
        if len(fsets) > 4 or key in self.nodisj:
            return frozenset()
        res = []
        for fs in fsets:
            r = [f for f in fs if f not in common and f[0].op not in ('has', 'orf', 'done')]
            if True:
                ix = {(f[0].a[1].a[1], f[0].a[0]) for f in fs if f[0].op == 'lt' and f[0].a[1].op == 'call' and f[0].a[1].a[0] == 'len'}
                r += [f for f in fs if f not in common and f[0].op == 'has' and f[0].a not in ix]
            if not r:
                # an earlier join: its cases
                os = [f[0] for f in fs if f not in common and f[0].op == 'orf' and f[1]]
                if not os:
                    return frozenset()
                for c in max(os, key=lambda t: (len(t.a), t.id)).a:
                    cc = tuple(x for x in c.a if (x.a[0], bool(x.a[1])) not in common)
                    if not cc:
                        return frozenset()
                    res.append(cc)
                continue
            if len(r) > 6:
                r = [f for f in r if not each_loops(f[0])]
            if not r or len(r) > 6:
                return frozenset()
            res.append(tuple(sorted((mk('fact', f[0], int(f[1])) for f in r), key=lambda t: t.id)))
        res = sorted(set(res), key=lambda r: [t.id for t in r])
        if len(res) < 2 or len(res) > 6:
            return frozenset()
        # case split on one predicate carries no information by itself
        if all(len(r) == 1 for r in res) and len(res) == 2 and res[0][0].a[0] is res[1][0].a[0]:
            return frozenset()
        return frozenset([(mk('orf', *[mk('andf', *r) for r in res]), True)])

    def join_vals(self, vals, key, made):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if v0.op in ('adt', 'tuple', 'closure', 'array') and all(v.op == v0.op for v in vals):
            if v0.op == 'adt' and all(v.a[:2] == v0.a[:2] and len(v.a[2]) == len(v0.a[2]) for v in vals):
                fs = []
                for i, (n, _) in enumerate(v0.a[2]):
                    fs.append((n, self.join_vals([v.a[2][i][1] for v in vals], (key, n), made)))
                return mk('adt', v0.a[0], v0.a[1], tuple(fs))
            if v0.op == 'tuple' and all(len(v.a) == len(v0.a) for v in vals):
                return mk('tuple', *[self.join_vals([v.a[i] for v in vals], (key, i), made) for i in range(len(v0.a))])
            if v0.op == 'closure' and all(v.a[0] == v0.a[0] for v in vals):
                return mk('closure', v0.a[0], tuple(self.join_vals([v.a[1][i] for v in vals], (key, i), made) for i in range(len(v0.a[1]))))
        bases = {v.a[0] if v.op == 'upd' else v for v in vals}
        if len(bases) == 1 and any(v.op == 'upd' for v in vals):
            base = bases.pop()
            names = set()
            for v in vals:
                if v.op == 'upd':
                    names |= {n for n, _ in v.a[1]}
            d = []
            for n in sorted(names):
                var = downcast_of(vals, base, n) if n.isdigit() else None
                nv = self.join_vals([self.payload(v, var, n) if var and v.op != 'upd' else self.field(v, n) for v in vals], (key, n), made)
                d.append((n, nv))
            return mk('upd', base, tuple(d))
        p = phi(key)
        alts = PHI_ALTS.setdefault(p, set())
        for v in vals:
            if v is not p:
                alts.add(v)
        made.append((p, vals))
        return p

    # ------------------------------------------------------------------ block transfer
    def block(self, st, fr, b):
        blk = fr.body.blocks[b]
        st = st.copy()
        for s in blk['st']:
            self.stmt(st, fr, s, True)
        te = blk['te']
        t = te['t']
        if t in ('goto', 'drop'):
            return [(te['to'], st)]
        if t == 'return':
            return [('ret', st)]
        if t == 'switch':
            h = fr.body.cfg().get('inner', {}).get(b)
            if h is not None and h in fr.body.cfg()['ctr']:
                st, r = self.counted(st, fr, b, te)
                if r is not None:
                    return r
            return self.switch(st, fr, te)
        if t == 'assert':
            c = self.deep(st, self.operand(st, fr, te['o']))
            if self.record and te['msg'][0] == 'bounds':
                ln = self.deep(st, self.operand(st, fr, te['msg'][1]))
                ix = self.deep(st, self.operand(st, fr, te['msg'][2]))
                self.emit(st, fr, 'panic', 'bounds', None, [ix, ln], te['l'])
            elif self.record and te['msg'][0] in ('div0', 'rem0'):
                self.emit(st, fr, 'panic', te['msg'][0], None, [self.deep(st, self.operand(st, fr, te['msg'][1]))], te['l'])
            if te['msg'][0] == 'overflow':
                return [(te['to'], st)]
            s2 = self.assume(st, c, te['exp'])
            return [(te['to'], s2)] if s2 is not None else []
        if t == 'call':
            out = []
            for s2, v in self.call(st, fr, te, b):
                if te['to'] is None:
                    continue
                s2 = s2.copy()
                r, p = self.place(s2, fr, te['dest'])
                self.write(s2, r, p, v)
                out.append((te['to'], s2))
            if te['to'] is None:
                if self.record:
                    nm = te['f'].get('fn', {}).get('p', '?') if te['f']['k'] == 'const' else '?'
                    self.emit(st, fr, 'panic', 'diverge', nm, [], te['l'])
            return out
        return []

    def switch(self, st, fr, te):
        v = self.deep(st, self.operand(st, fr, te['o']))
        out = []
        ts = [(int(x), y) for x, y in te['ts']]
        if v.op == 'const':
            for x, y in ts:
                if x == v.a[1]:
                    return [(y, st)]
            return [(te['else'], st)]
        if v.op == 'discr':
            t, table = v.a
            if t.op == 'adt':
                for val, nm in table:
                    if nm == t.a[1]:
                        for x, y in ts:
                            if x == val:
                                return [(y, st)]
                        return [(te['else'], st)]
            names = dict(table)
            rest = [n for val, n in table if val not in [x for x, _ in ts]]
            for x, y in ts:
                nm = names.get(x)
                s2 = self.assume(st, mk('istest', t, nm), True) if nm else st
                if s2 is not None:
                    out.append((y, s2))
            if rest or not table:
                s2 = st
                if len(rest) == 1:
                    s2 = self.assume(st, mk('istest', t, rest[0]), True)
                else:
                    for x, _ in ts:
                        if s2 is not None and x in names:
                            s2 = self.assume(s2, mk('istest', t, names[x]), False)
                if s2 is not None:
                    out.append((te['else'], s2))
            return out
        if te['ty'] == 'bool':
            for x, y in ts:
                s2 = self.assume(st, v, bool(x))
                if s2 is not None:
                    out.append((y, s2))
            if len(ts) == 1:
                s2 = self.assume(st, v, not bool(ts[0][0]))
                if s2 is not None:
                    out.append((te['else'], s2))
            return out
        s3 = st
        for x, y in ts:
            c = self.eq(v, mk('const', 'int', x))
            s2 = self.assume(st, c, True)
            if s2 is not None:
                out.append((y, s2))
            if s3 is not None:
                s3 = self.assume(s3, c, False)
        if s3 is not None:
            out.append((te['else'], s3))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, te, b):
        args = [self.operand(st, fr, a) for a in te['args']]
        aty = te.get('aty', [])
        f = te['f']
        site = (fr.fid, b)
        if f['k'] == 'const' and 'fn' in f:
            c = self.P.callee(f['fn'])
            return self.call_callee(st, fr, c, args, aty, te, site)
        fv = self.operand(st, fr, f)
        return self.call_value(st, fr, fv, args, te, site)

    def call_value(self, st, fr, fv, args, te, site, aty=()):
        """call a closure / function value"""
        v = fv
        if v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        if v.op == 'fnref':
            c = self.fnrefs[v]
            return self.call_callee(st, fr, c, args, list(aty) or ['?'] * len(args), te, site)
        if v.op == 'closure':
            body = self.P.bodies.get(v.a[0])
            if body is not None and len(self.stack) < MAXDEPTH and not any(f.body is body for f in self.stack):
                st = st.copy()
                selfarg = fv
                if body.locals[1]['ty'].startswith('&') and fv.op != 'ref':
                    root = ('L', ('clo', site, v.a[0]), 0)
                    st.mem[root] = v
                    selfarg = mk('ref', root, ())
                res = self.call_body(st, body, [selfarg] + args[:body.argc - 1], (site, 'clo', v.a[0]))
                for s, _ in res:
                    s.mem.pop(('L', ('clo', site, v.a[0]), 0), None)
                return res
        if v.op == 'adt' or fv.op == 'phi' or True:
            a = [self.deep(st, x) for x in args]
            return [(st, mk('call', 'callvalue', self.deep(st, v), *a))]

    def is_opaque(self, c, body):
        if body.clean in self.opaque or c.clean in self.opaque or c.short in self.opaque:
            return True
        if self.opaque_pred and self.opaque_pred(body.clean, c):
            return True
        return False

    def call_callee(self, st, fr, c, args, aty, te, site):
        short = c.short
        dty = te.get('dty', '')
        line = te.get('l')
        # rust-call ABI wrappers
        if short in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'):
            tup = self.deep(st, args[1]) if args[1].op != 'tuple' else args[1]
            a = list(tup.a) if tup.op == 'tuple' else [tup]
            return self.call_value(st, fr, args[0], a, te, site)
        body = c.body
        if body is not None and (not body.derived or short == 'Default::default' and '<' not in dty) and not self.is_opaque(c, body) and not (c.trait and short.startswith(('PartialEq::', 'Clone::', 'Debug::', 'Display::', 'Hash::', 'PartialOrd::', 'Ord::'))):
            if len(self.stack) < MAXDEPTH and not any(f.body is body for f in self.stack):
                if self.record:
                    self.emit(st, fr, 'call', c.short, c.clean, [self.deep(st, a) for a in args], line, recv=self.recv(st, args), dty=dty, extra='inlined', site=site)
                self.inlined.add(body.clean)
                return self.call_body(st, body, args, site)
        from models import model
        r = model(self, st, fr, c, args, aty, te, site)
        if r is not None:
            return r
        return self.generic(st, fr, c, args, aty, te, site)

    def recv(self, st, args):
        if not args:
            return None
        a = args[0]
        if a.op == 'ref':
            return origin(self.pdesc(st, a.a[0], a.a[1]))
        return origin(self.deep(st, a))

    def generic(self, st, fr, c, args, aty, te, site, name=None):
        nm = name or (c.short if not c.local or c.trait else c.clean)
        dargs = [self.deep(st, a) for a in args]
        if self.record:
            self.emit(st, fr, 'call', c.short, c.clean, dargs, te.get('l'), recv=self.recv(st, args), dty=te.get('dty'), site=site)
        # closures passed to unknown functions: analyse once for events and effects
        for a in args:
            v = a
            if v.op == 'ref':
                v = self.read(st, v.a[0], v.a[1])
            if v.op == 'closure' and v.a[0] in self.P.bodies:
                cb = self.P.bodies[v.a[0]]
                un = [mk('clarg', site, i) for i in range(cb.argc - 1)]
                rs = self.call_value(st, fr, a, un, te, (site, 'unk'))
                if rs:
                    st = self.join([st] + [s for s, _ in rs], (site, 'unkclo'))
        val = mk('call', nm, *dargs)
        st = st.copy()
        for i, a in enumerate(args):
            ty = aty[i] if i < len(aty) else ''
            if a.op == 'ref' and ty.startswith('&mut'):
                nv = mk('mut', nm, i, *dargs)
                self.write(st, a.a[0], a.a[1], nv)
        return [(st, val)]


class _PB:
    def __init__(self, b, j):
        self.path = b.path
        self.clean = b.clean
        self.proms = b.proms
        self.loc = b.loc
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.argc = 0
        self.addr_taken = set()

    def cfg(self):
        return {'live': {}}


class Frame:
    def __init__(self, an, body, key):
        self.body = body
        self.fid = an.frame_id(key)
        body.cfg()
        fl = []
        self.is_two = {}
        for i, l in enumerate(body.locals):
            ty = l['ty']
            if ty == 'bool' or ty.startswith(('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::cmp::Ordering')):
                fl.append(i)
                self.is_two[i] = ty != 'bool' and not ty.startswith('std::cmp')
            elif ty.startswith('(') and any(x in ty for x in ('bool', 'Option<', 'Result<')):
                fl.append(i)
                self.is_two[i] = False
            elif l.get('adt') in an.P.adts and an.P.adts[l['adt']]['enum'] and not ty.startswith('&'):
                fl.append(i)
                self.is_two[i] = False
        self.flag_locals = fl
        self.addr = body.addr_taken


# ---------------------------------------------------------------------- helpers
def downcast_of(vals, base, n):
    """the variant whose payload n the updated values of enum `base` update, if any"""
    for v in vals:
        x = dict(v.a[1]).get(n) if v.op == 'upd' else None
        seen = 0
        while x is not None and seen < 50:
            seen += 1
            if x.op == 'vf' and x.a[0] is base and x.a[2] == n:
                return x.a[1]
            if x.op == 'upd':
                x = x.a[0]
            elif x.op == 'mut':
                x = x.a[2 + x.a[1]]
            elif x.op == 'phi':
                x = next((y for y in PHI_ALTS.get(x, ()) if y.op in ('upd', 'mut', 'vf')), None)
            else:
                x = None
    return None


def has_ref(t):
    if t._r is None:
        r = False
        if t.op == 'ref':
            r = True
        elif t.op in ('phi', 'const', 'param', 'uninit'):
            r = False
        else:
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    if has_ref(x):
                        r = True
                        break
                elif isinstance(x, tuple):
                    st.extend(x)
        t._r = r
    return t._r


def vclass(v, d):
    if v.op == 'const' and v.a[0] == 'bool':
        return v.a[1]
    if v.op == 'adt':
        if d > 1 and v.a[1] in ('Some', 'Ok', 'Err', 'Continue', 'Break') and v.a[2]:
            s = vclass(v.a[2][0][1], d - 1)
            if s is not None:
                return (v.a[1], s)
        return v.a[1]
    if v.op == 'tuple' and d > 1:
        c = tuple(vclass(x, d - 1) for x in v.a)
        if any(x is not None for x in c):
            return c
    return None


def same_states(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.facts != y.facts or x.vac != y.vac or x.mem != y.mem:
            return False
    return True


def strip_eq(t):
    return t


def origin(t):
    """strip functional updates / mutations to find the object a value started from"""
    n = 0
    while n < 200:
        n += 1
        if t.op == 'upd':
            t = t.a[0]
        elif t.op == 'mut':
            t = t.a[2 + t.a[1]]
        elif t.op == 'phi':
            alts = PHI_ALTS.get(t, ())
            os = {origin_nophi(x) for x in alts}
            os.discard(t)
            os = {x for x in os if x.op != 'phi'}
            if len(os) == 1:
                t = os.pop()
                continue
            return t
        elif t.op == 'field':
            b = origin(t.a[0])
            if b is not t.a[0]:
                return mk('field', b, t.a[1])
            return t
        else:
            return t
    return t


def origin_nophi(t):
    n = 0
    while n < 200:
        n += 1
        if t.op == 'upd':
            t = t.a[0]
        elif t.op == 'mut':
            t = t.a[2 + t.a[1]]
        else:
            return t
    return t


def loops_in(t):
    """set of loop ids mentioned by elem terms syntactically in t"""
    if t._sub is None:
        out = set()
        if t.op == 'elem':
            out.add(t.a[1])
        if t.op != 'phi':
            for c in children(t):
                out |= loops_in(c)
        t._sub = frozenset(out)
    return t._sub


def loop_kind(t, L):
    """0: no mention of loop L;  1: elem(L) only;  2: each(L) mentioned"""
    ls = loops_in(t)
    if ('each', L) in ls:
        return 2
    return 1 if L in ls else 0


def resub(t, m, memo):
    return subst(t, m, memo)


def T_like(c, f):
    na = tuple(f(x) if isinstance(x, T) else x for x in c.a)
    return mk(c.op, *na) if na != c.a else c


def varies(t, k, L):
    """the value of t may change from one iteration of L to the next"""
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is k:
            return True
        if x.op == 'phi':
            if L in phi_keys(x.a[0]):
                return True
            continue
        if x.op == 'elem' and x.a[1] == L:
            return True
        work += children(x)
    return False


def phi_keys(k):
    """the program points a join key names"""
    out = set()
    work = [k]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            if len(x) >= 2 and isinstance(x[0], int):
                out.add((x[0], x[1]))
            work += list(x)
    return out


def entails(facts, f):
    """f (a disjunction of conjunctions) follows from one of the facts"""
    if f in facts:
        return True
    t = f[0]
    if t.op != 'orf' or not f[1]:
        return False
    br = [frozenset((x.a[0], bool(x.a[1])) for x in c.a) for c in t.a]
    for c in br:
        if c <= facts:
            return True
    for g, v in facts:
        if v and g.op == 'orf':
            for c in g.a:
                have = facts | frozenset((x.a[0], bool(x.a[1])) for x in c.a)
                if not any(b <= have for b in br):
                    break
            else:
                return True
    return False


def each_loops(t):
    return [l[1] for l in loops_in(t) if isinstance(l, tuple) and l and l[0] == 'each']


_sl = {}


def prev_mem(mem, L):
    """at the end of an iteration, the element visited in it becomes one visited earlier"""
    return {k: (subst_loop(v, L, ('prev', L)) if L in loops_in(v) else v) for k, v in mem.items()}


def gate_facts(s, L):
    """what holds at the end of an iteration of L, said of the element visited in it"""
    return frozenset((subst_loop(f[0], L, ('prev', L)), f[1]) for f in s.facts
                     if ('prev', L) not in loops_in(f[0]) and loop_kind(f[0], L) < 2 and f[0].op != 'done')


def subst_loop(t, L, L2):
    k = (t, L, L2)
    r = _sl.get(k)
    if r is not None:
        return r
    if L not in loops_in(t):
        r = t
    else:
        def rec(x):
            if isinstance(x, T):
                return subst_loop(x, L, L2)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        if t.op == 'elem' and t.a[1] == L:
            r = mk('elem', rec(t.a[0]), L2)
        else:
            na = tuple(rec(x) for x in t.a)
            r = mk(t.op, *na)
            if t.op == 'eq' and r.a[1].id < r.a[0].id:
                r = mk('eq', r.a[1], r.a[0])
    _sl[k] = r
    return r
