"""Abstract interpretation of MIR with constant-trip loops unrolled, over the abstract integers of limb.py.

Control flow is followed exactly where it is decided by constants; a branch on an abstract value is explored both ways
(every way is analysed: `paths`).  Crate functions are entered; functions of the standard library are modelled; `hooks`
replace a crate function by its meaning in a coarser domain once that meaning has been established."""
import re
import limb as L
from limb import S
import bigval as B
from bigval import BigS
from program import Callee

INT = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'u128': (128, 0), 'usize': (64, 0),
       'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'i128': (128, 1), 'isize': (64, 1)}


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Fork(Exception):
    pass


class Leak(Unsupported):
    """a secret reaches control flow, an address or a division"""


class Sec:
    """a number nothing may depend on: neither control flow nor addresses"""
    __slots__ = ()

    def binop(self, op, b):
        if op in ('Div', 'Rem') and not (isinstance(b, int) and b > 0 and b & (b - 1) == 0):
            raise Leak('a division by or of a secret')
        return self

    def rbinop(self, op, a):
        if op in ('Div', 'Rem'):
            raise Leak('a division by a secret')
        return self

    def compare(self, op, b):
        return self

    def cast(self, t):
        return self

    def __repr__(self):
        return 'SECRET'


SECRET = Sec()


def shade(v):
    """the same shape with every number secret"""
    t = type(v)
    if t is list:
        return [shade(x) for x in v]
    if t is Str:
        return Str(v.adt, {k: shade(x) for k, x in v.items()})
    return SECRET


class Str(dict):
    """struct value"""
    __slots__ = ('adt',)

    def __init__(self, adt, *a):
        dict.__init__(self, *a)
        self.adt = adt


class En:
    __slots__ = ('var', 'f', 'adt')

    def __init__(self, var, f, adt=''):
        self.var, self.f, self.adt = var, f, adt

    def __repr__(self):
        return '%s(%r)' % (self.var, self.f)


class Clo:
    __slots__ = ('path', 'f')

    def __init__(self, path, f):
        self.path, self.f = path, f


class FnV:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class Ref:
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v


class Sl:
    """a slice reference (or a place inside one)"""
    __slots__ = ('c', 'o', 'n')

    def __init__(self, c, o, n):
        self.c, self.o, self.n = c, o, n

    def items(self):
        return self.c[self.o:self.o + self.n]

    def get(self):
        return self

    def refs(self):
        return [Ref(self.c, self.o + i) for i in range(self.n)]


class Whole:
    """the place a slice reference points to"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class It:
    """iterator over a known list of items"""
    __slots__ = ('l', 'i', 'j')

    def __init__(self, l):
        self.l, self.i, self.j = l, 0, len(l)

    def rest(self):
        return self.l[self.i:self.j]

    def next(self):
        if self.i < self.j:
            self.i += 1
            return some(self.l[self.i - 1])
        return NONE

    def back(self):
        if self.i < self.j:
            self.j -= 1
            return some(self.l[self.j])
        return NONE


class Cond:
    """an undecided condition"""
    __slots__ = ('op', 'a', 'b', 'neg')

    def __init__(self, op, a, b, neg=False):
        self.op, self.a, self.b, self.neg = op, a, b, neg

    def key(self):
        return (self.op, ckey(self.a), ckey(self.b))

    def __repr__(self):
        return '%s%s(%r, %r)' % ('!' if self.neg else '', self.op, self.a, self.b)


def ckey(x):
    if isinstance(x, S):
        return L.pkey(x.poly)
    if isinstance(x, (int, bool)):
        return int(x)
    if isinstance(x, Cond):
        return (x.key(), x.neg)
    if hasattr(x, 'key'):
        return x.key()
    return id(x)


NONE = En('None', [])


def some(x):
    return En('Some', [x])


def cp(v):
    t = type(v)
    if t is int or t is S or t is bool or t is Ref or t is Sec:
        return v
    if t is list:
        return [x if type(x) is int or type(x) is S else cp(x) for x in v]
    if t is Str:
        return Str(v.adt, {k: cp(x) for k, x in v.items()})
    if t is En:
        return En(v.var, [cp(x) for x in v.f], v.adt) if v.f else v
    if t is Clo:
        return Clo(v.path, [cp(x) for x in v.f])
    if t is It:
        r = It(v.l)
        r.i, r.j = v.i, v.j
        return r
    return v


def is_num(v):
    return isinstance(v, (int, S)) and not isinstance(v, bool)


class Frame:
    __slots__ = ('body', 'l')

    def __init__(self, body):
        self.body = body
        self.l = [None] * len(body.locals)


class Unroll:
    def __init__(self, prog, hooks=None, budget=3000000):
        self.prog = prog
        self.hooks = hooks or {}
        self.budget = budget
        self.steps = 0
        self.dec = []         # decisions to replay
        self.di = 0
        self.pc = []          # path condition: (Cond, truth)
        self.known = {}
        self.overflow = []    # arithmetic that may leave its machine type
        self.depth = 0
        self.fns = set()
        self.callees = {}
        self.consts = {}
        self.maxpaths = 400
        self.where = None
        self.begin()

    # ------------------------------------------------------------- paths
    def paths(self, run):
        """run(self) once per feasible combination of undecided branches: list of (result, pc)"""
        out = []
        self.pfacts = []      # facts of each path
        stack = [[]]
        while stack:
            self.dec = stack.pop()
            self.di = 0
            self.pc = []
            self.known = {}
            self.begin()
            self.depth = 0
            try:
                r = run(self)
                out.append((r, list(self.pc)))
            except Panic as e:
                out.append((e, list(self.pc)))
            self.pfacts.append(list(self.facts))
            # alternatives at decisions made beyond the replayed prefix
            for i in range(len(self.replayed), len(self.taken)):
                for alt in self.alts[i]:
                    stack.append(self.taken[:i] + [alt])
            if len(out) > self.maxpaths:
                raise Unsupported('too many paths')
        return out

    def begin(self):
        self.facts = []
        self.lens = {}
        self.replayed = list(self.dec)
        self.taken = []
        self.alts = []

    def choose(self, n):
        """decide among n ways"""
        i = len(self.taken)
        if i < len(self.replayed):
            c = self.replayed[i]
            self.alts.append([])
        else:
            c = 0
            self.alts.append(list(range(1, n)))
        self.taken.append(c)
        return c

    def facts_len(self, name, lo, hi):
        if name not in self.lens:
            self.lens[name] = lo + (self.choose(hi - lo + 1) if hi > lo else 0)
        return self.lens[name]

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Cond):
            k = v.key()
            if k in self.known:
                return self.known[k] != v.neg
            t = self.choose(2) == 0
            self.known[k] = t
            self.pc.append((Cond(v.op, v.a, v.b), t))
            return t != v.neg
        if v is SECRET:
            raise Leak('a branch on a secret')
        raise Unsupported('branch on %r' % (v,))

    # ------------------------------------------------------------- places
    def place(self, fr, p):
        """lvalue: Ref, or Whole(slice)"""
        cur = Ref(fr.l, p[0])
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = cur.get() if isinstance(cur, Ref) else cur
                if isinstance(v, Ref):
                    cur = v
                elif isinstance(v, Sl):
                    cur = Whole(v)
                elif isinstance(v, Whole):
                    cur = v
                else:
                    cur = cur if isinstance(cur, Ref) else Ref([v], 0)   # Box and the like: transparent
            elif k == 'f':
                v = cur.get()
                if isinstance(v, Str):
                    if e[2] not in v:
                        if len(v) > e[1] and e[2].isdigit():
                            cur = Ref(v, list(v)[e[1]])
                            continue
                        raise Unsupported('field %s of %s' % (e[2], v.adt))
                    cur = Ref(v, e[2])
                elif isinstance(v, list):
                    cur = Ref(v, e[1])
                elif isinstance(v, (En, Clo)):
                    cur = Ref(v.f, e[1])
                else:
                    raise Unsupported('field %s of %r' % (e[2], v))
            elif k == 'dc':
                v = cur.get()
                if isinstance(v, En) and v.var != e[1]:
                    raise Unsupported('downcast')
            elif k in ('i', 'ci'):
                i = fr.l[e[1]] if k == 'i' else e[1]
                if not isinstance(i, int):
                    raise Leak('an index that is secret') if i is SECRET else Unsupported('index by an abstract value')
                if isinstance(cur, Whole):
                    s = cur.s
                    if k == 'ci' and e[2]:
                        i = s.n - i
                    if i < 0 or i >= s.n:
                        raise Panic('index')
                    cur = Ref(s.c, s.o + i)
                else:
                    v = cur.get()
                    if not isinstance(v, list):
                        raise Unsupported('index of %r' % (v,))
                    if k == 'ci' and e[2]:
                        i = len(v) - i
                    if i < 0 or i >= len(v):
                        raise Panic('index')
                    cur = Ref(v, i)
            else:
                raise Unsupported('projection %s' % k)
        return cur

    def read(self, fr, p):
        c = self.place(fr, p)
        if isinstance(c, Whole):
            return c.s
        return c.get()

    def operand(self, fr, o):
        if o['k'] in ('copy', 'move'):
            v = self.read(fr, o['p'])
            if v is None:
                raise Unsupported('read of an unset local in %s' % fr.body.clean)
            return cp(v)
        return self.const(fr, o)

    def const(self, fr, o):
        if 'fn' in o:
            return FnV(o['fn'])
        if 'closure' in o:
            return Clo(o['closure'], [])
        if 'v' in o:
            if o['ty'] == 'bool':
                return o['v'] not in ('0', 'false')
            return int(o['v'])
        if 'str' in o:
            return ('str', o['str'])
        if 'promoted' in o:
            b = fr.body
            pj = b.proms[o['promoted']]
            return self.promoted(b, o['promoted'], pj)
        if 'item' in o:
            v = self.item(o['item'], o['ty'])
            return v if isinstance(v, list) and v and isinstance(v[0], list) else cp(v)     # tables are only read
        if (self.prog.consts.get(o.get('static')) or {}).get('hex'):
            return Ref([self.item(o['static'], o['ty'][1:])], 0)
        if o.get('static') and self.lazy_body(o['static'], o['ty']) is not None:
            return ('lazy', o['static'])
        if o['ty'] == '()':
            return []
        return ('const', o['ty'])

    def lazy_body(self, path, ty):
        """the initialiser of a global that is computed on first use"""
        if not ty.startswith(('&std::sync::LazyLock<', '&once_cell::sync::Lazy<')):
            return None
        b = self.prog.bodies.get(path + '::{closure#0}')
        if b is None:
            fs = [f for f in (self.prog.consts.get(path) or {}).get('init', ()) if f in self.prog.bodies]
            b = self.prog.bodies[fs[0]] if len(fs) == 1 else None
        return b

    def lazy(self, path):
        k = ('lazy', path)
        if k not in self.consts:
            b = self.lazy_body(path, '&std::sync::LazyLock<')
            self.consts[k] = self.exec(b, [('closure', path)] if '{closure' in b.path else [])
        return self.consts[k]

    def promoted(self, b, i, pj):
        k = (b.path, i)
        if k not in self.consts:
            from program import Body
            bb = Body(dict(pj, p=b.path + '::promoted%d' % i, name='promoted', kind='Closure'))
            self.consts[k] = self.exec(bb, [])
        return self.consts[k]

    def item(self, path, ty):
        if path in self.consts:
            return self.consts[path]
        c = self.prog.consts.get(path)
        if c is None:
            raise Unsupported('constant %s' % path)
        if 'int' in c:
            v = int(c['int'])
            t = INT.get(c['ty'])
            if t and t[1] and v >> (t[0] - 1):
                v -= 1 << t[0]
        elif 'hex' in c:
            v = self.decode(bytes.fromhex(c['hex']), c['ty'])
        elif 'str' in c:
            v = ('str', c['str'])
        else:
            v = ('item', path)
            b = self.prog.bodies.get(path)
            if b is not None:
                v = self.exec(b, [])
        self.consts[path] = v
        return v

    def tysize(self, ty):
        ty = ty.strip()
        if ty in INT:
            return INT[ty][0] // 8
        if ty == 'bool':
            return 1
        m = re.match(r'\[(.*); (\d+)(?:_usize)?\]$', ty)
        if m:
            return self.tysize(m.group(1)) * int(m.group(2))
        a = self.prog.adts.get(ty)
        if a and 'size' in a:
            return a['size']
        raise Unsupported('size of %s' % ty)

    def decode(self, b, ty):
        ty = ty.strip()
        if ty in INT:
            n, s = INT[ty]
            return int.from_bytes(b[:n // 8], 'little', signed=bool(s))
        if ty == 'bool':
            return bool(b[0])
        m = re.match(r'\[(.*); (\d+)(?:_usize)?\]$', ty)
        if m:
            n = self.tysize(m.group(1))
            return [self.decode(b[i * n:(i + 1) * n], m.group(1)) for i in range(int(m.group(2)))]
        a = self.prog.adts.get(ty)
        if a and 'off' in a:
            fs = a['variants'][0]['fields']
            return Str(ty, {f['n']: self.decode(b[o:], f['ty']) for f, o in zip(fs, a['off'])})
        raise Unsupported('constant of type %s' % ty)

    # ------------------------------------------------------------- execution
    def call_fn(self, name, args):
        l = self.prog.by_clean.get(name) or []
        b = l[0] if len(l) == 1 else None
        if b is None:
            raise Unsupported('no function %s' % name)
        return self.exec(b, args)

    def exec(self, body, args):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        self.fns.add(body.clean)
        fr = Frame(body)
        for i, a in enumerate(args):
            fr.l[i + 1] = a
        b = 0
        try:
            while True:
                blk = body.blocks[b]
                for s in blk['st']:
                    self.steps += 1
                    if self.steps > self.budget:
                        raise Unsupported('too many steps')
                    if s['s'] == '=':
                        v = self.rvalue(fr, s['v'], s)
                        self.assign(fr, s['d'], v)
                    elif s['s'] == 'dead':
                        fr.l[s['x']] = None if not self.borrowed(fr, s['x']) else fr.l[s['x']]
                te = blk['te']
                t = te['t']
                self.steps += 1
                if t == 'goto' or t == 'drop':
                    b = te['to']
                elif t == 'return':
                    return fr.l[0]
                elif t == 'switch':
                    b = self.switch(fr, te)
                elif t == 'assert':
                    c = self.operand(fr, te['o'])
                    if c is SECRET:
                        raise Leak('a check (%s) on a secret' % te['msg'][0])
                    if isinstance(c, Cond):
                        c = te['exp']     # recorded as an obligation where it arose
                    if bool(c) != te['exp']:
                        raise Panic(te['msg'][0])
                    b = te['to']
                elif t == 'call':
                    self.where = (body.clean, te.get('l'))
                    v = self.call(fr, te)
                    if te['to'] is None:
                        raise Panic('diverges')
                    self.assign(fr, te['dest'], v)
                    b = te['to']
                else:
                    raise Unsupported('terminator %s' % t)
        finally:
            self.depth -= 1

    def borrowed(self, fr, x):
        return True

    def assign(self, fr, d, v):
        if not d[1]:
            fr.l[d[0]] = v
            return
        c = self.place(fr, d)
        if isinstance(c, Whole):
            if isinstance(v, list):
                c.s.c[c.s.o:c.s.o + c.s.n] = v
                return
            raise Unsupported('store to a slice')
        c.set(v)

    def switch(self, fr, te):
        v = self.operand(fr, te['o'])
        if v is SECRET:
            self.where = (fr.body.clean, te.get('l'))
            raise Leak('a branch on a secret')
        if isinstance(v, (bool, Cond)):
            t = self.truth(v)
            z = 1 if t else 0
            for k, b in te['ts']:
                if int(k) == z:
                    return b
            return te['else']
        ty = te['ty']
        if isinstance(v, int):
            for k, b in te['ts']:
                kk = int(k)
                if ty in INT and INT[ty][1] and kk >> (INT[ty][0] - 1):
                    kk -= 1 << INT[ty][0]
                if kk == v:
                    return b
            return te['else']
        if isinstance(v, S):
            for k, b in te['ts']:
                kk = int(k)
                if ty in INT and INT[ty][1] and kk >> (INT[ty][0] - 1):
                    kk -= 1 << INT[ty][0]
                if self.truth(self.compare('Eq', v, kk)):
                    return b
            return te['else']
        raise Unsupported('switch on %r' % (v,))

    # ------------------------------------------------------------- rvalues
    def rvalue(self, fr, r, s):
        k = r['r']
        if k == 'use':
            return self.operand(fr, r['o'])
        if k == 'ref' or k == 'raw':
            c = self.place(fr, r['p'])
            return c.s if isinstance(c, Whole) else c
        if k == 'bin':
            return self.binop(r['op'], self.operand(fr, r['a']), self.operand(fr, r['b']), r['ty'], (fr.body.clean, s.get('l')))
        if k == 'un':
            a = self.operand(fr, r['a'])
            if a is SECRET:
                return a
            if r['op'] == 'Not':
                if isinstance(a, bool):
                    return not a
                if isinstance(a, Cond):
                    return Cond(a.op, a.a, a.b, not a.neg)
                ty = self.optype(fr, r['a'])
                n, sg = INT[ty]
                return L.sub(-1, a) if sg else L.sub((1 << n) - 1, a)
            if r['op'] == 'Neg':
                ty = self.optype(fr, r['a'])
                return self.fit(L.neg(a), ty, (fr.body.clean, s.get('l')), 'Neg')
            if r['op'] == 'PtrMetadata':
                return self.length(a)
            raise Unsupported('unary %s' % r['op'])
        if k == 'cast':
            return self.cast(self.operand(fr, r['o']), r['from'], r['ty'], r['ck'])
        if k == 'repeat':
            v = self.operand(fr, r['o'])
            m = re.match(r'(\d+)', r['n'])
            if not m:
                raise Unsupported('array length %s' % r['n'])
            return [cp(v) for _ in range(int(m.group(1)))]
        if k == 'agg':
            ops = [self.operand(fr, o) for o in r['ops']]
            if r['ak'] in ('array', 'tuple'):
                return ops
            if r['ak'] == 'adt':
                if r['enum']:
                    return En(r['var'], ops, r['adt'])
                return Str(r['adt'], dict(zip(r['fields'], ops)))
            if r['ak'] == 'closure':
                return Clo(r['def'], ops)
        if k == 'discr':
            v = self.read(fr, r['p'])
            while isinstance(v, Ref):
                v = v.get()
            if isinstance(v, En):
                for d, n in r['vs']:
                    if n == v.var:
                        return int(d)
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            return self.length(self.read(fr, r['p']))
        raise Unsupported('rvalue %s' % k)

    def optype(self, fr, o):
        if o['k'] == 'const':
            return o['ty']
        p = o['p']
        if not p[1]:
            return fr.body.locals[p[0]]['ty']
        # type of an element of a known container
        t = fr.body.locals[p[0]]['ty']
        for x in INT:
            if re.search(r'\b%s\b' % x, t):
                return x
        raise Unsupported('type of operand')

    def fit(self, v, ty, where, op):
        """result of checked arithmetic in its machine type"""
        if ty not in INT or isinstance(v, bool):
            return v
        n, s = INT[ty]
        lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
        a, b = L.R(v)
        if a < lo or b > hi:
            if isinstance(v, int):
                raise Panic('overflow')
            self.overflow.append((where, op, ty, a, b))
            return S(v.poly, max(a, lo), min(b, hi))
        return v

    def binop(self, op, a, b, ty, where):
        checked = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if a is SECRET or b is SECRET:
            self.where = where
            r = SECRET.binop(base, b) if a is SECRET else SECRET.rbinop(base, a)
            return [r, False] if checked else r
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(base, a, b)
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            return self.boolop(base, a, b)
        if hasattr(a, 'binop'):
            return a.binop(base, b)
        if hasattr(b, 'rbinop'):
            return b.rbinop(base, a)
        if not is_num(a) or not is_num(b):
            raise Unsupported('%s of %r, %r' % (op, a, b))
        n, s = INT.get(ty, (64, 0))
        if base == 'Add':
            v = L.add(a, b)
        elif base == 'Sub':
            v = L.sub(a, b)
        elif base == 'Mul':
            v = L.mul(a, b)
        elif base == 'Shl':
            if not isinstance(b, int):
                raise Unsupported('shift by an abstract value')
            v = L.shl(a, b)
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
            x, y = L.R(v)
            if x < lo or y > hi:     # bits are shifted out
                v = L.trunc(v, n, s)
            return [v, False] if checked else v
        elif base == 'Shr':
            if not isinstance(b, int):
                raise Unsupported('shift by an abstract value')
            v = L.shr(a, b)
            return [v, False] if checked else v
        elif base == 'BitAnd':
            return L.bits2(a, b, L.f_and, 'and', n, s)
        elif base == 'BitOr':
            return L.bits2(a, b, L.f_or, 'or', n, s)
        elif base == 'BitXor':
            return L.bits2(a, b, L.f_xor, 'xor', n, s)
        elif base in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Panic('division by zero')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if base == 'Div' else a - q * b
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and L.R(a)[0] >= 0:
                return L.shr(a, b.bit_length() - 1) if base == 'Div' else L.mask(a, b - 1)
            raise Unsupported('division')
        else:
            raise Unsupported('operator %s' % op)
        if checked:
            return [self.fit(v, ty, where, base), False]
        return self.fit(v, ty, where, base)

    def boolop(self, op, a, b):
        if a is SECRET or b is SECRET:
            return SECRET
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op]
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool):
                    if op == 'BitAnd':
                        return y if x else False
                    if op == 'BitOr':
                        return True if x else y
                    return Cond(y.op, y.a, y.b, y.neg != x)
            return Cond(op, a, b)
        raise Unsupported('%s on booleans' % op)

    def compare(self, op, a, b):
        if a is SECRET or b is SECRET:
            return SECRET
        if isinstance(a, (bool, Cond)) or isinstance(b, (bool, Cond)):
            if op in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, (bool, int)):
                        if isinstance(y, (bool, int)):
                            return (bool(x) == bool(y)) == (op == 'Eq')
                        t = bool(x) == (op == 'Eq')
                        return y if t else Cond(y.op, y.a, y.b, not y.neg)
            raise Unsupported('comparison of booleans')
        if hasattr(a, 'compare'):
            return a.compare(op, b)
        if hasattr(b, 'compare'):
            return b.compare({'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op), a)
        if not is_num(a) or not is_num(b):
            if isinstance(a, Big) or isinstance(b, Big):
                a, b = big(a), big(b)
            else:
                raise Unsupported('comparison of %r, %r' % (a, b))
        if isinstance(a, int) and isinstance(b, int):
            return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
        if op == 'Ne':
            c = self.compare('Eq', a, b)
            return (not c) if isinstance(c, bool) else Cond(c.op, c.a, c.b, not c.neg)
        d = L.sub(a, b)
        lo, hi = L.R(d)
        if op == 'Eq':
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            return Cond('Eq', d, 0)
        if op in ('Gt', 'Le'):
            c = self.compare('Lt', b, a)
            if op == 'Gt':
                return c
            return (not c) if isinstance(c, bool) else Cond(c.op, c.a, c.b, not c.neg)
        if op == 'Ge':
            c = self.compare('Lt', a, b)
            return (not c) if isinstance(c, bool) else Cond(c.op, c.a, c.b, not c.neg)
        if hi < 0:
            return True
        if lo >= 0:
            return False
        return Cond('Lt', a, b)

    def cast(self, v, f, t, ck):
        if t in INT:
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Cond):
                return self.bool_num(v)
            if is_num(v):
                n, s = INT[t]
                return L.trunc(v, n, s)
            if isinstance(v, Ref):
                raise Unsupported('pointer to integer')
            if hasattr(v, 'cast'):
                return v.cast(t)
            raise Unsupported('cast of %r' % (v,))
        if 'Unsize' in ck:
            tgt = v.get() if isinstance(v, Ref) else v
            if isinstance(v, Ref) and isinstance(tgt, list) and '[' in t:
                return Sl(tgt, 0, len(tgt))
            return v
        if t == 'bool':
            return v
        return v

    def bool_num(self, c):
        i = L.atom('bool', (c.key(), c.neg), 0, 1)
        return S({((i, 1),): 1})

    def length(self, v):
        while isinstance(v, Ref):
            v = v.get()
        if isinstance(v, Sl):
            return v.n
        if isinstance(v, Whole):
            return v.s.n
        if isinstance(v, list):
            return len(v)
        if isinstance(v, It):
            return v.j - v.i
        if isinstance(v, tuple) and v[0] == 'str':
            return len(v[1])
        raise Unsupported('length of %r' % (v,))

    # ------------------------------------------------------------- calls
    def callee(self, d):
        k = id(d)
        c = self.callees.get(k)
        if c is None:
            c = self.callees[k] = (Callee(d, self.prog), d)
        return c[0]

    def call(self, fr, te):
        f = te['f']
        args = [self.operand(fr, a) for a in te['args']]
        if 'fn' not in f:
            fv = self.operand(fr, f)
            return self.apply(fv, args)
        c = self.callee(f['fn'])
        return self.invoke(c, args, te.get('aty', []), te.get('dty', ''))

    def invoke(self, c, args, aty, dty):
        for key in (c.clean, c.short, c.path):
            h = self.hooks.get(key)
            if h is not None:
                r = h(self, args, aty, dty)
                if r is not NotImplemented:
                    return r
        b = c.body
        if b is not None:
            h = self.hooks.get(b.clean)
            if h is not None:
                r = h(self, args, aty, dty)
                if r is not NotImplemented:
                    return r
            if b.kind == 'Closure' and c.name in ('call', 'call_mut', 'call_once') and len(args) == 2 and isinstance(args[1], list):
                return self.exec(b, [args[0]] + list(args[1]))
            return self.exec(b, args)
        r = std(self, c, args, aty, dty)
        if r is NotImplemented:
            raise Unsupported('call of %s (%s)' % (c.short, c.path))
        return r

    def apply(self, f, args):
        """call a function value; args is the list of arguments"""
        while isinstance(f, Ref):
            f = f.get()
        if isinstance(f, Clo):
            b = self.prog.bodies.get(f.path)
            if b is None:
                raise Unsupported('closure %s' % f.path)
            env = Ref([f], 0) if b.locals[1]['ty'].startswith('&') else f
            return self.exec(b, [env] + args)
        if isinstance(f, FnV):
            return self.invoke(self.callee(f.d), args, [''] * len(args), '')
        raise Unsupported('call of %r' % (f,))


class Big:
    """a big integer known at analysis time"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'Big(%d)' % self.v


def big(x):
    x = deref(x)
    if isinstance(x, Big):
        return x.v
    if isinstance(x, int):
        return x
    raise Unsupported('big integer %r' % (x,))


def deref(v):
    while isinstance(v, Ref):
        v = v.get()
    return v


def items(v):
    """the items an into_iter of v yields"""
    if isinstance(v, It):
        return v.rest()
    if isinstance(v, Str) and v.adt.split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
        return It(rng(v)).l
    if isinstance(v, Sl):
        return v.refs()
    if isinstance(v, Ref):
        t = v.get()
        if isinstance(t, list):
            return [Ref(t, i) for i in range(len(t))]
        if isinstance(t, (Sl, Ref)):
            return items(t)
        if isinstance(t, It):
            r = t.rest()
            t.i = t.j
            return r
        if isinstance(t, Str):
            return items(t)
    if isinstance(v, list):
        return list(v)
    if isinstance(v, En) and v.var in ('Some', 'None'):
        return list(v.f)
    raise Unsupported('iteration over %r' % (v,))


def rng(r):
    n = r.adt.split('::')[-1]
    s = r.get('start', 0)
    if n == 'RangeFrom':
        if not isinstance(s, int):
            raise Unsupported('range')
        return list(range(s, s + 4096))
    e = r.get('end')
    if not isinstance(s, int) or not isinstance(e, int):
        raise Unsupported('loop bound that is not a constant')
    return list(range(s, e + (1 if n == 'RangeInclusive' else 0)))


def view(v):
    """the slice a reference designates"""
    if isinstance(v, Sl):
        return v
    if isinstance(v, Whole):
        return v.s
    if isinstance(v, Ref):
        t = v.get()
        if isinstance(t, list):
            return Sl(t, 0, len(t))
        return view(t)
    if isinstance(v, list):
        return Sl(v, 0, len(v))
    raise Unsupported('slice of %r' % (v,))


def subslice(s, r):
    r = deref(r)
    n = r.adt.split('::')[-1] if isinstance(r, Str) else ''
    if n == 'RangeFull' or isinstance(r, tuple):
        return s
    lo = r.get('start', 0)
    hi = r.get('end', s.n)
    if n in ('RangeInclusive', 'RangeToInclusive'):
        hi = hi + 1
    if not isinstance(lo, int) or not isinstance(hi, int):
        raise Unsupported('slice bounds')
    if lo > hi or hi > s.n:
        raise Panic('slice bounds')
    return Sl(s.c, s.o + lo, hi - lo)


def zero_of(U, ty):
    ty = ty.strip()
    if ty in INT:
        return 0
    if ty == 'bool':
        return False
    m = re.match(r'\[(.*); (\d+)(?:_usize)?\]$', ty)
    if m:
        return [zero_of(U, m.group(1)) for _ in range(int(m.group(2)))]
    if ty.startswith(('std::vec::Vec', 'alloc::vec::Vec')):
        return []
    if ty == 'num_bigint_dig::BigInt':
        return Big(0)
    if ty.startswith('std::option::Option'):
        return NONE
    b = U.prog.bodies.get('<%s as std::default::Default>::default' % ty)
    if b is not None:
        return U.exec(b, [])
    for bb in U.prog.bodies.values():
        if bb.name == 'default' and (bb.j.get('self') or '').split('<')[0] == ty.split('<')[0]:
            return U.exec(bb, [])
    raise Unsupported('default of %s' % ty)


def wrapn(v, ty):
    n, s = INT[ty]
    return L.trunc(v, n, s)


OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr', 'div': 'Div', 'rem': 'Rem'}


def equal(U, a, b):
    """structural equality: bool or Cond list"""
    a, b = deref(a), deref(b)
    if isinstance(a, Sl):
        a = a.items()
    if isinstance(b, Sl):
        b = b.items()
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        acc = True
        for x, y in zip(a, b):
            e = equal(U, x, y)
            if e is False:
                return False
            acc = U.boolop('BitAnd', acc, e)
        return acc
    if isinstance(a, Str) and isinstance(b, Str):
        return equal(U, list(a.values()), list(b.values()))
    if isinstance(a, (Big, BigS)) and isinstance(b, (Big, BigS)):
        if isinstance(a, Big) and isinstance(b, Big):
            return a.v == b.v
        return B.order(U, B.of(a), B.of(b)) == 'Equal'
    if isinstance(a, En) and isinstance(b, En):
        if a.var != b.var:
            return False
        return equal(U, a.f, b.f)
    return U.compare('Eq', a, b)


def lexic(U, x, y):
    """lexicographic comparison, splitting where it is not decided"""
    x, y = deref(x), deref(y)
    if is_num(x) and is_num(y):
        if U.truth(U.compare('Eq', x, y)):
            return 'Equal'
        return 'Less' if U.truth(U.compare('Lt', x, y)) else 'Greater'
    lx, ly = ([deref(i) for i in (v.items() if isinstance(v, Sl) else items(v))] for v in (x, y))
    for i, j in zip(lx, ly):
        o = lexic(U, i, j)
        if o != 'Equal':
            return o
    return 'Equal' if len(lx) == len(ly) else 'Less' if len(lx) < len(ly) else 'Greater'


SECRET_DIV = ('div', 'rem', 'div_euclid', 'rem_euclid', 'checked_div', 'checked_rem', 'wrapping_div', 'wrapping_rem')
SECRET_OK = ('add', 'sub', 'mul', 'bitand', 'bitor', 'bitxor', 'shl', 'shr', 'neg', 'not', 'abs', 'signum', 'rotate_left', 'rotate_right', 'count_ones', 'leading_zeros', 'trailing_zeros', 'is_negative', 'is_positive',
             'swap_bytes', 'to_le', 'to_be', 'from', 'into', 'black_box', 'unwrap_u8', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'ct_eq', 'ct_ne', 'ct_gt', 'ct_lt', 'clone', 'to_owned', 'min', 'max', 'abs_diff', 'unsigned_abs', 'black_box', 'pow')


def has_secret(v):
    v = deref(v)
    if v is SECRET:
        return True
    if isinstance(v, Sl):
        v = v.items()
    if isinstance(v, It):
        v = v.rest()
    if isinstance(v, (list, tuple)):
        return any(has_secret(x) for x in v)
    if isinstance(v, dict):
        return any(has_secret(x) for x in v.values())
    if isinstance(v, En):
        return any(has_secret(x) for x in v.f)
    return False


def secret_std(U, n, args):
    base = n
    for pre in ('wrapping_', 'overflowing_', 'unchecked_', 'saturating_'):
        if base.startswith(pre):
            base = base[len(pre):]
    assign = base.endswith('_assign') and not base.startswith('conditional')
    if assign:
        base = base[:-7]
    if n in ('conditional_select', 'conditional_assign', 'conditional_swap', 'conditional_negate'):
        if n == 'conditional_select':
            return shade(deref(args[0]))
        args[0].set(shade(deref(args[0])))
        if n == 'conditional_swap':
            args[1].set(shade(deref(args[1])))
        return []
    d = deref(args[1]) if len(args) > 1 else None
    if base in SECRET_DIV and not (isinstance(d, int) and d > 0 and d & (d - 1) == 0):
        raise Leak('a division of or by a secret')
    if base in SECRET_OK:
        if assign:
            args[0].set(SECRET)
            return []
        return [SECRET, SECRET] if n.startswith('overflowing_') else SECRET
    if n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes'):
        raise Unsupported(n)
    return NotImplemented


def std(U, c, args, aty, dty):
    if args and any(x is SECRET or isinstance(x, (Ref, list)) and deref(x) is SECRET for x in args):
        r = secret_std(U, c.name, args)
        if r is not NotImplemented:
            return r
    s = c.short
    n = c.name
    if n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'starts_with', 'ends_with', 'contains') and len(args) == 2 and not c.path.startswith('subtle::') and (has_secret(args[0]) or has_secret(args[1])):
        raise Leak('an early-exit comparison of secrets')
    a0 = args[0] if args else None
    ty0 = (aty[0] if aty else '').replace('&mut ', '').replace('&', '').strip()
    # lazily initialised statics
    if s == 'Lazy::get' and len(args) == 2:
        f = deref(args[1])
        return Ref([U.apply(f, [])], 0)
    if n in ('deref', 'force') and len(args) == 1:
        x = deref(a0)
        if isinstance(x, tuple) and x[:1] == ('lazy',):
            return Ref([cp(U.lazy(x[1]))], 0)
    # ---- constant-time selection (subtle)
    if c.path.startswith('subtle::') or n in ('ct_eq', 'ct_ne', 'conditional_assign', 'conditional_select', 'conditional_swap', 'conditional_negate', 'unwrap_u8') or ('subtle::Choice' in dty or 'subtle::Choice' in ty0):
        r = subtle(U, n, args, ty0, dty)
        if r is not NotImplemented:
            return r
    # ---- ownership, conversion
    if n in ('clone', 'to_owned', 'cloned', 'copied', 'borrow', 'borrow_mut', 'as_ref', 'as_mut', 'deref', 'deref_mut', 'as_slice', 'as_mut_slice', 'into_boxed_slice', 'must_use', 'black_box') and len(args) == 1:
        if n in ('clone', 'to_owned'):
            v = deref(a0)
            return list(map(cp, v.items())) if isinstance(v, Sl) and n == 'to_owned' else cp(v)
        if n in ('cloned', 'copied'):
            if isinstance(a0, (It, Str)) or isinstance(a0, Sl):
                return It([cp(deref(x)) for x in items(a0)])
            if isinstance(a0, En):
                return En(a0.var, [cp(deref(x)) for x in a0.f], a0.adt)
        if n in ('as_slice', 'as_mut_slice'):
            return view(a0)
        if n in ('as_ref', 'as_mut', 'deref', 'deref_mut') and isinstance(deref(a0), list):
            return view(a0)
        v = deref(a0)
        if n in ('as_ref', 'as_mut') and isinstance(v, En) and v.var in ('Some', 'None'):
            return En(v.var, [Ref(v.f, i) for i in range(len(v.f))])
        return a0
    if n == 'to_vec':
        return [cp(x) for x in view(a0).items()]
    if n in ('into', 'from') and len(args) == 1:
        v = deref(a0) if not isinstance(a0, Sl) else a0
        if isinstance(v, (bool, Cond)) and dty in INT:
            return int(v) if isinstance(v, bool) else U.bool_num(v)
        if is_num(v):
            if 'BigInt' in dty or 'BigUint' in dty:
                return Big(v) if isinstance(v, int) else B.of(v)
            return v
        if 'BigInt' in dty and isinstance(v, BigS):
            return v
        if 'BigInt' in dty:
            return Big(big(v))
        if isinstance(v, Sl):
            return [cp(x) for x in v.items()]
        return v
    if n in ('try_into', 'try_from'):
        if isinstance(a0, Sl) or isinstance(deref(a0), list):
            m = re.search(r'\[\w+; (\d+)', dty)
            v = [cp(x) for x in view(a0).items()]
            if m and int(m.group(1)) != len(v):
                return En('Err', [('err',)])
            return En('Ok', [v])
        if is_num(a0):
            m = re.search(r'Result<(\w+)', dty)
            if m and m.group(1) in INT:
                k, sg = INT[m.group(1)]
                lo, hi = (-(1 << k - 1), (1 << k - 1) - 1) if sg else (0, (1 << k) - 1)
                l, h = L.R(a0)
                if lo <= l and h <= hi:
                    return En('Ok', [a0])
        return NotImplemented
    if s == 'Default::default':
        return zero_of(U, dty)
    if n == 'discriminant_value' or n == 'discriminant':
        v = deref(a0)
        if isinstance(v, En):
            a = U.prog.adts.get(v.adt)
            if a:
                return [x.get('name', x.get('n')) for x in a['variants']].index(v.var)
            if v.var in ('None', 'Some', 'Ok', 'Err'):
                return int(v.var in ('Some', 'Err'))
        raise Unsupported('discriminant')
    if n == 'len' and len(args) == 1:
        return U.length(a0)
    if n == 'is_empty':
        return U.length(a0) == 0
    if n in ('lt', 'le', 'gt', 'ge') and len(args) == 2 and isinstance(deref(a0), (Big, BigS)):
        o = B.order(U, B.of(deref(a0)), B.of(deref(args[1])))
        return o in {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[n]
    if n in ('eq', 'ne') and len(args) == 2:
        v = deref(a0)
        own = v.adt + ' as PartialEq::eq' if isinstance(v, Str) else None
        if own in U.hooks:
            e = U.hooks[own](U, [Ref([v], 0), Ref([deref(args[1])], 0)], aty, 'bool')
        elif own and len(U.prog.by_clean.get(own) or []) == 1:
            e = U.exec(U.prog.by_clean[own][0], [Ref([v], 0), Ref([deref(args[1])], 0)])
        elif isinstance(a0, (It, Str)) and isinstance(args[1], (It, Str)):
            e = equal(U, items(a0), items(args[1]))
        else:
            e = equal(U, a0, args[1])
        if n == 'ne':
            return (not e) if isinstance(e, bool) else Cond(e.op, e.a, e.b, not e.neg)
        return e
    if n in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp') and len(args) == 2:
        x, y = deref(a0), deref(args[1])
        if isinstance(x, (It, Sl, list)) or n in ('cmp', 'partial_cmp') and is_num(x) and is_num(y):
            o = lexic(U, x, y)
            if n in ('cmp', 'partial_cmp'):
                e = En(o, [], 'std::cmp::Ordering')
                return some(e) if n == 'partial_cmp' else e
            return o in {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal')}[n]
        if n in ('lt', 'le', 'gt', 'ge'):
            return U.compare(n.capitalize(), x, y)
    # ---- arithmetic
    tail = n[:-7] if n.endswith('_assign') else n
    if tail in OPS and len(args) == 2:
        x, y = deref(a0), deref(args[1])
        if isinstance(x, BigS) or isinstance(y, BigS):
            v = B.arith(tail, x, y)
            if v is None:
                raise Unsupported('big integer operation %s' % tail)
        elif isinstance(x, Big) or isinstance(y, Big):
            v = Big({'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q, 'div': tdiv, 'rem': lambda p, q: p - q * tdiv(p, q),
                     'shl': lambda p, q: p << q, 'shr': lambda p, q: p >> q, 'bitand': lambda p, q: p & q, 'bitor': lambda p, q: p | q, 'bitxor': lambda p, q: p ^ q}[tail](big(x), big(y)))
        else:
            v = U.binop(OPS[tail], x, y, ty0 if ty0 in INT else 'i64', U.where)
        if n.endswith('_assign'):
            a0.set(v)
            return []
        return v
    if n == 'not' and len(args) == 1:
        x = deref(a0)
        if isinstance(x, bool):
            return not x
        if isinstance(x, Cond):
            return Cond(x.op, x.a, x.b, not x.neg)
        k, sg = INT[ty0]
        return L.sub(-1, x) if sg else L.sub((1 << k) - 1, x)
    if n == 'neg' and len(args) == 1:
        x = deref(a0)
        if isinstance(x, BigS):
            return B.arith('sub', 0, x)
        return Big(-x.v) if isinstance(x, Big) else L.neg(x)
    if n.startswith('wrapping_') and ty0 in INT:
        x, y = a0, args[1] if len(args) > 1 else 0
        v = {'add': lambda: L.add(x, y), 'sub': lambda: L.sub(x, y), 'mul': lambda: L.mul(x, y), 'neg': lambda: L.neg(x),
             'shl': lambda: L.shl(x, y), 'shr': lambda: L.shr(x, y)}.get(n[9:])
        return wrapn(v(), ty0) if v else NotImplemented
    if n == 'div_ceil' and len(args) == 2 and isinstance(a0, int) and isinstance(args[1], int) and args[1] > 0:
        return -(-a0 // args[1])
    if n == 'div_ceil' and len(args) == 2 and isinstance(args[1], int) and args[1] > 0 and args[1] & (args[1] - 1) == 0 and is_num(a0) and ty0 in INT and not INT[ty0][1]:
        return L.shr(L.add(a0, args[1] - 1), args[1].bit_length() - 1)
    if n in ('min', 'max') and len(args) == 2 and isinstance(a0, int) and isinstance(args[1], int):
        return min(a0, args[1]) if n == 'min' else max(a0, args[1])
    if n == 'pow' and isinstance(args[1], int):
        v = 1
        for _ in range(args[1]):
            v = L.mul(v, a0)
        return v
    if n in ('abs', 'unsigned_abs') and is_num(a0):
        if L.R(a0)[0] >= 0:
            return a0
        if isinstance(a0, int):
            return abs(a0)
        return NotImplemented
    if n in ('swap', 'replace', 'take') and c.path.startswith(('std::mem', 'core::mem')):
        if n == 'swap':
            x, y = a0.get(), args[1].get()
            a0.set(y)
            args[1].set(x)
            return []
        x = a0.get()
        a0.set(args[1] if n == 'replace' else zero_of(U, dty))
        return x
    # ---- slices and vectors
    if n in ('index', 'index_mut') and len(args) == 2:
        i = args[1]
        if isinstance(i, Str) or isinstance(i, tuple) and 'RangeFull' in str(i):
            return subslice(view(a0), i)
        if isinstance(i, int):
            v = view(a0)
            if i < 0 or i >= v.n:
                raise Panic('index')
            return Ref(v.c, v.o + i)
        raise Unsupported('index by an abstract value')
    if n in ('get', 'get_mut') and len(args) == 2:
        v = view(a0)
        i = args[1]
        if isinstance(i, Str):
            try:
                return some(subslice(v, i))
            except Panic:
                return NONE
        if isinstance(i, int):
            return some(Ref(v.c, v.o + i)) if 0 <= i < v.n else NONE
        return NotImplemented
    if n in ('first', 'last', 'first_mut', 'last_mut'):
        v = view(a0)
        if not v.n:
            return NONE
        return some(Ref(v.c, v.o + (0 if n.startswith('first') else v.n - 1)))
    if n in ('copy_from_slice', 'clone_from_slice'):
        d, v = view(a0), view(args[1])
        if d.n != v.n:
            raise Panic('copy_from_slice')
        d.c[d.o:d.o + d.n] = [cp(x) for x in v.items()]
        return []
    if n == 'fill' and len(args) == 2:
        d = view(a0)
        for i in range(d.n):
            d.c[d.o + i] = cp(args[1])
        return []
    if n in ('split_at', 'split_at_mut'):
        v = view(a0)
        if args[1] > v.n:
            raise Panic('split')
        return [Sl(v.c, v.o, args[1]), Sl(v.c, v.o + args[1], v.n - args[1])]
    if s in ('slice::reverse', 'Vec::reverse'):
        v = view(a0)
        v.c[v.o:v.o + v.n] = v.items()[::-1]
        return []
    if s == 'slice::swap':
        v = view(a0)
        i, j = v.o + args[1], v.o + args[2]
        v.c[i], v.c[j] = v.c[j], v.c[i]
        return []
    if s in ('Vec::new', 'Vec::with_capacity', 'String::new'):
        return []
    if s == 'Vec::push':
        deref(a0).append(args[1])
        return []
    if n == 'from_elem':
        if not isinstance(args[1], int) or args[1] > 1 << 16:
            raise Unsupported('vector length')
        return [cp(a0) for _ in range(args[1])]
    if n == 'new_uninit':
        return [None, [None]]
    if n == 'box_assume_init_into_vec_unsafe':
        return a0[1][0]
    if s == 'Vec::splice':
        l = deref(a0)
        r = subslice(Sl(l, 0, len(l)), args[1])
        old = r.items()
        l[r.o:r.o + r.n] = [cp(deref(x)) for x in items(args[2])]
        return It(old)
    if s == 'Vec::drain':
        l = deref(a0)
        r = subslice(Sl(l, 0, len(l)), args[1])
        old = r.items()
        del l[r.o:r.o + r.n]
        return It(old)
    if n == 'clone_from' and len(args) == 2:
        a0.set(cp(deref(args[1])))
        return []
    if n == 'into_vec' or n == 'box_new' or s == 'Box::new':
        return a0
    if s == 'Vec::resize':
        v = deref(a0)
        while len(v) < args[1]:
            v.append(cp(args[2]))
        del v[args[1]:]
        return []
    if n in ('extend_from_slice', 'extend') and isinstance(deref(a0), list):
        v = deref(a0)
        v.extend(cp(deref(x)) for x in items(args[1]))
        return []
    if s == 'Vec::append':
        v, w = deref(a0), deref(args[1])
        v.extend(w)
        del w[:]
        return []
    if s == 'Vec::pop':
        v = deref(a0)
        return some(v.pop()) if v else NONE
    if s == 'Vec::remove':
        v = deref(a0)
        if not isinstance(args[1], int) or args[1] >= len(v):
            raise Panic('remove')
        return v.pop(args[1])
    if s == 'Vec::clear':
        del deref(a0)[:]
        return []
    if n == 'concat':
        return [cp(deref(y)) for x in view(a0).items() for y in items(x)]
    if n in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes') and len(args) == 1:
        v = deref(a0)
        m = re.search(r'<impl (\w+)>', c.path) or re.match(r'(\w+)$', dty)
        ty = m.group(1) if m and m.group(1) in INT else dty
        if ty in INT and isinstance(v, list) and len(v) * 8 == INT[ty][0]:
            if any(x is SECRET for x in v):
                return SECRET
            acc = 0
            for i, x in enumerate(v if n != 'from_be_bytes' else v[::-1]):
                acc = L.add(acc, L.shl(x, 8 * i))
            return wrapn(acc, ty) if INT[ty][1] else acc
        return NotImplemented
    if n in ('to_le_bytes', 'to_be_bytes', 'to_ne_bytes') and isinstance(a0, int) and ty0 in INT:
        k, sg = INT[ty0]
        return list(a0.to_bytes(k // 8, 'big' if n == 'to_be_bytes' else 'little', signed=sg))
    if s == 'Vec::truncate':
        del deref(a0)[args[1]:]
        return []
    if s == 'Vec::insert':
        deref(a0).insert(args[1], args[2])
        return []
    if n in ('iter', 'iter_mut'):
        return It(view(a0).refs())
    if n in ('chunks', 'chunks_exact', 'chunks_mut'):
        v = view(a0)
        k = args[1]
        return It([Sl(v.c, v.o + i, min(k, v.n - i)) for i in range(0, v.n, k) if n != 'chunks_exact' or i + k <= v.n])
    if n == 'windows':
        v = view(a0)
        return It([Sl(v.c, v.o + i, args[1]) for i in range(0, v.n - args[1] + 1)])
    # ---- iterators
    if n == 'into_iter' and len(args) == 1:
        if isinstance(a0, Str) and a0.adt.split('::')[-1] in ('Range', 'RangeInclusive', 'RangeFrom'):
            return It(rng(a0)) if a0.adt.split('::')[-1] != 'Range' else a0
        if isinstance(a0, It):
            return a0
        return It(items(a0))
    if n == 'new' and 'RangeInclusive' in (c.self_adt or c.path):
        return Str('std::ops::RangeInclusive', {'start': a0, 'end': args[1]})
    if n == 'contains' and isinstance(deref(a0), Str):
        r = deref(a0)
        x = deref(args[1])
        lo = U.compare('Ge', x, r['start']) if 'start' in r else True
        hi = U.compare('Le' if 'Inclusive' in r.adt else 'Lt', x, r['end']) if 'end' in r else True
        return U.boolop('BitAnd', lo, hi)
    if n in ('next', 'next_back') and len(args) == 1:
        it = deref(a0)
        if isinstance(it, It):
            return it.next() if n == 'next' else it.back()
        if isinstance(it, Str):
            l = rng(it)
            if not l:
                return NONE
            if n == 'next':
                it['start'] = l[0] + 1
                return some(l[0])
            it['end'] = l[-1]
            return some(l[-1])
        return NotImplemented
    if n == 'enumerate':
        return It([[i, x] for i, x in enumerate(items(a0))])
    if n == 'rev':
        return It(items(a0)[::-1])
    if n == 'zip':
        return It([[x, y] for x, y in zip(items(a0), items(args[1]))])
    if n == 'chain':
        return It(items(a0) + items(args[1]))
    if n in ('take', 'skip', 'step_by') and len(args) == 2 and isinstance(args[1], int):
        l = items(a0)
        return It(l[:args[1]] if n == 'take' else l[args[1]:] if n == 'skip' else l[::args[1]])
    if n in ('by_ref', 'peekable', 'fuse'):
        return a0
    if n == 'map' and isinstance(a0, (It, Str)) :
        return It([U.apply(args[1], [x]) for x in items(a0)])
    if n in ('flat_map', 'flatten', 'filter_map') and isinstance(a0, (It, Str)):
        l = [U.apply(args[1], [x]) for x in items(a0)] if n != 'flatten' else items(a0)
        return It([y for x in l for y in items(x)])
    if n == 'inspect' and isinstance(a0, (It, Str)):
        l = items(a0)
        for x in l:
            U.apply(args[1], [Ref([x], 0)])
        return It(l)
    if n in ('cycle',):
        return NotImplemented
    if n == 'last' and isinstance(a0, (It, Str)):
        l = items(a0)
        return some(l[-1]) if l else NONE
    if n == 'unzip':
        l = items(a0)
        return [[x[0] for x in l], [x[1] for x in l]]
    if n in ('filter',) and isinstance(a0, (It, Str)):
        return It([x for x in items(a0) if U.truth(U.apply(args[1], [Ref([x], 0)]))])
    if n in ('take_while', 'skip_while') and isinstance(a0, (It, Str)):
        out, on = [], False
        for x in items(a0):
            t = U.truth(U.apply(args[1], [Ref([x], 0)]))
            if n == 'take_while':
                if not t:
                    break
                out.append(x)
            else:
                on = on or not t
                if on:
                    out.append(x)
        return It(out)
    if n == 'for_each':
        for x in items(a0):
            U.apply(args[1], [x])
        return []
    if n == 'fold':
        acc = args[1]
        for x in items(a0):
            acc = U.apply(args[2], [acc, x])
        return acc
    if n in ('sum', 'product'):
        acc = 0 if n == 'sum' else 1
        for x in items(a0):
            acc = L.add(acc, deref(x)) if n == 'sum' else L.mul(acc, deref(x))
        return acc
    if n in ('all', 'any') and len(args) == 2:
        for x in items(a0):
            t = U.truth(U.apply(args[1], [x]))
            if t != (n == 'all'):
                return n == 'any'
        return n == 'all'
    if n in ('position', 'find') and len(args) == 2:
        for i, x in enumerate(items(a0)):
            if U.truth(U.apply(args[1], [x if n == 'position' else Ref([x], 0)])):
                return some(i if n == 'position' else x)
        return NONE
    if n == 'count':
        return len(items(a0))
    if n == 'nth':
        l = items(a0)
        return some(l[args[1]]) if args[1] < len(l) else NONE
    if n == 'collect':
        l = items(a0)
        return [x for x in l]
    # ---- Option / Result
    v0 = deref(a0) if args else None
    if isinstance(v0, En):
        if n in ('unwrap', 'expect'):
            if v0.var in ('Some', 'Ok'):
                return v0.f[0]
            raise Panic('unwrap')
        if n in ('is_some', 'is_ok', 'is_none', 'is_err'):
            return {'is_some': 'Some', 'is_ok': 'Ok', 'is_none': 'None', 'is_err': 'Err'}[n] == v0.var
        if n in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'map_or', 'map_or_else') :
            if v0.var in ('Some', 'Ok'):
                if n.startswith('map_or'):
                    return U.apply(args[2], [v0.f[0]])
                return v0.f[0]
            if n == 'unwrap_or' or n == 'map_or':
                return args[1]
            if n == 'unwrap_or_default':
                return zero_of(U, dty)
            return U.apply(args[1], list(v0.f) if v0.var == 'Err' else [])
        if n in ('map', 'and_then', 'map_err', 'ok_or', 'ok_or_else', 'ok', 'err'):
            good = v0.var in ('Some', 'Ok')
            if n == 'map':
                return En(v0.var, [U.apply(args[1], [v0.f[0]])], v0.adt) if good else v0
            if n == 'and_then':
                return U.apply(args[1], [v0.f[0]]) if good else v0
            if n == 'map_err':
                return v0 if good else En('Err', [U.apply(args[1], [v0.f[0]])], v0.adt)
            if n in ('ok_or', 'ok_or_else'):
                return En('Ok', [v0.f[0]]) if good else En('Err', [args[1] if n == 'ok_or' else U.apply(args[1], [])])
            if n == 'ok':
                return some(v0.f[0]) if good else NONE
        if n == 'branch':
            return En('Continue', [v0.f[0]]) if v0.var in ('Some', 'Ok') else En('Break', [v0])
        if n == 'from_residual':
            return v0
    if n == 'from_output':
        return En('Ok' if 'Result' in dty else 'Some', [a0])
    if n in ('call', 'call_mut', 'call_once') and len(args) == 2:
        return U.apply(a0, list(args[1]))
    if n in ('panic', 'panic_fmt', 'unwrap_failed', 'expect_failed', 'panic_bounds_check', 'begin_panic', 'assert_failed', 'panic_explicit', 'unreachable_display', 'unreachable'):
        raise Panic(n)
    if c.path.startswith(('core::panicking', 'std::panicking')):
        raise Panic(n)
    # ---- num-bigint constants
    r = bigint(U, c, args, aty, dty)
    if r is not NotImplemented:
        return r
    # formatting and errors carry no numbers
    if 'fmt' in c.path or n in ('format', 'to_string', 'new_const', 'new_v1', 'new_display', 'new_lower_hex', 'new_debug'):
        return ('fmt',)
    return NotImplemented


def as_cond(U, x):
    x = deref(x)
    if isinstance(x, (bool, Cond)):
        return x
    if isinstance(x, int):
        return x != 0
    if isinstance(x, S) and x.lo >= 0 and x.hi <= 1:
        return U.compare('Eq', x, 1)
    raise Unsupported('choice %r' % (x,))


def subtle(U, n, args, ty0, dty):
    a0 = args[0] if args else None
    if n in ('ct_eq', 'ct_ne'):
        e = equal(U, a0, args[1])
        return e if n == 'ct_eq' else (not e) if isinstance(e, bool) else Cond(e.op, e.a, e.b, not e.neg)
    if n in ('from', 'into') and len(args) == 1:
        if 'Choice' in dty:
            x = deref(a0)
            if isinstance(x, S) and not (x.lo >= 0 and x.hi <= 1):
                raise Unsupported('choice %r' % (x,))
            return x
        if dty == 'bool':
            return as_cond(U, a0)
        return NotImplemented
    if n == 'unwrap_u8':
        x = deref(a0)
        return int(x) if isinstance(x, bool) else U.bool_num(x) if isinstance(x, Cond) else x
    if n in ('conditional_select', 'conditional_assign', 'conditional_swap'):
        c = args[2]
        hook = getattr(U, 'select', None)
        if n == 'conditional_select':
            if hook:
                return hook(U, deref(a0), deref(args[1]), c)
            return cp(deref(args[1] if U.truth(as_cond(U, c)) else a0))
        if n == 'conditional_assign':
            if hook:
                a0.set(hook(U, deref(a0), deref(args[1]), c))
            elif U.truth(as_cond(U, c)):
                a0.set(cp(deref(args[1])))
            return []
        if U.truth(as_cond(U, c)):
            x, y = a0.get(), args[1].get()
            a0.set(y)
            args[1].set(x)
        return []
    if n == 'not' and 'Choice' in dty:
        x = as_cond(U, a0)
        return (not x) if isinstance(x, bool) else Cond(x.op, x.a, x.b, not x.neg)
    if n in ('bitand', 'bitor', 'bitxor') and 'Choice' in dty:
        return U.boolop({'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[n], as_cond(U, a0), as_cond(U, args[1]))
    return NotImplemented


def tdiv(a, b):
    if b == 0:
        raise Panic('division by zero')
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def bigint(U, c, args, aty, dty):
    n = c.name
    a = [deref(x) for x in args]
    if n == 'from_str_radix' and len(a) == 2 and isinstance(a[0], tuple):
        return En('Ok', [Big(int(a[0][1], a[1]))])
    if n == 'from_str' and isinstance(a[0], tuple):
        return En('Ok', [Big(int(a[0][1]))])
    if n in ('to_bytes_le', 'to_bytes_be') and isinstance(a[0], Big):
        v = abs(a[0].v)
        b = list(v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'little'))
        if n.endswith('be'):
            b = b[::-1]
        sg = En('Plus' if a[0].v > 0 else 'Minus' if a[0].v < 0 else 'NoSign', [])
        return [sg, b]
    if n in ('from_bytes_le', 'from_bytes_be') and isinstance(a[0], En):
        b = [x for x in view(args[1]).items()]
        if a[0].var == 'Plus' and not all(isinstance(x, int) for x in b):
            if n.endswith('be'):
                b = b[::-1]
            q = {}
            for i, x in enumerate(b):
                q = L.padd(q, L.pscale(L.P(x), 1 << 8 * i))
            hi = sum(L.R(x)[1] << 8 * i for i, x in enumerate(b))
            lo = sum(L.R(x)[0] << 8 * i for i, x in enumerate(b))
            return BigS(B.undigit(q), (0, lo), (0, hi))
        if not all(isinstance(x, int) for x in b):
            return NotImplemented
        v = int.from_bytes(bytes(b), 'little' if n.endswith('le') else 'big')
        return Big(v if a[0].var == 'Plus' else -v if a[0].var == 'Minus' else 0)
    if any(isinstance(x, BigS) for x in a):
        x = B.of(a[0])
        if n == 'sign':
            return En(B.sign(U, x), [])
        if n in ('is_zero', 'is_negative', 'is_positive'):
            return B.sign(U, x) == {'is_zero': 'NoSign', 'is_negative': 'Minus', 'is_positive': 'Plus'}[n]
        if n == 'cmp' and len(a) == 2:
            return En(B.order(U, x, B.of(a[1])), [])
        if n == 'abs':
            return x if x.nonneg() else B.arith('sub', 0, x) if B.sign(U, x) == 'Minus' else x
        if n in ('to_bytes_be', 'to_bytes_le'):
            b = B.to_bytes(U, x, n.endswith('be'))
            if b is None:
                raise Unsupported('bytes of an unbounded integer')
            return [En('Plus', []), b]
        if n in ('mod_floor',) and len(a) == 2:
            r = B.arith('rem', x, a[1])
            if r is None or not r.nonneg():
                raise Unsupported('mod_floor')
            return r
        if n == 'mod_inverse' and len(a) == 2:
            m = B.is_modulus(B.of(a[1]))
            if m is None:
                raise Unsupported('modulus of an inverse')
            i = L.atom('inv', (L.pkey(x.poly), m[0]), 0, 1 << 4096)
            return some(BigS({((i, 1),): 1}, (0, 0), (m[1][0], m[1][1] - 1)))
        if n == 'modpow' and len(a) == 3:
            m = B.is_modulus(B.of(a[2]))
            if m is None:
                raise Unsupported('modulus of a power')
            i = L.atom('pow', (L.pkey(x.poly), L.pkey(B.of(a[1]).poly), m[0]), 0, 1 << 4096)
            return BigS({((i, 1),): 1}, (0, 0), (m[1][0], m[1][1] - 1))
        return NotImplemented
    if a and isinstance(a[0], Big):
        if n in ('bits', 'bit_length'):
            return abs(a[0].v).bit_length()
        if n == 'sign':
            return En('Plus' if a[0].v > 0 else 'Minus' if a[0].v < 0 else 'NoSign', [])
        if n in ('is_zero', 'is_negative', 'is_positive', 'is_one'):
            return {'is_zero': a[0].v == 0, 'is_negative': a[0].v < 0, 'is_positive': a[0].v > 0, 'is_one': a[0].v == 1}[n]
        if n == 'cmp':
            y = big(a[1])
            return En('Less' if a[0].v < y else 'Greater' if a[0].v > y else 'Equal', [])
        if n == 'modpow':
            return Big(pow(a[0].v, a[1].v, a[2].v))
        if n in ('mod_floor',):
            return Big(a[0].v % big(a[1]))
        if n in ('to_owned', 'abs'):
            return Big(abs(a[0].v)) if n == 'abs' else a[0]
    if n in ('zero', 'one') and 'BigInt' in dty:
        return Big(0 if n == 'zero' else 1)
    return NotImplemented
