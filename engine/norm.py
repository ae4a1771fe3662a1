"""Canonical forms.  Maps the raw value terms of the interpreter to a representation in which
behaviour-preserving rewrites coincide:

 * scalar / point expressions become polynomials over the group (commutative ring of scalars acting
   on formal sums of points, with `B` the base point);
 * everything that feeds a hash, a buffer or a writer becomes the sequence of written parts
   (loops become `rep(container, parts)`);
 * encodings `marshal(x)?` become enc(x), decoded objects dec(bytes); numeric casts disappear.
"""
from terms import *
from terms import PHI_ALTS, PHI_GATE

B = mk('base')
ONE = ((), )


def C(op, *a):
    return mk(op, *a)


# ------------------------------------------------------------------ polynomials over scalars
def p_const(n):
    return {(): n} if n else {}


def p_atom(t):
    return {(t,): 1}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def m_mul(m, n):
    l = list(m)
    for x in n:
        inv = x.a[0] if x.op == 'inv' else C('inv', x)
        if inv in l:
            l.remove(inv)
        else:
            l.append(x)
    return tuple(sorted(l, key=lambda t: t.id))


def p_freeze(p):
    return tuple(sorted(p.items(), key=lambda kv: tuple(t.id for t in kv[0])))


def l_add(a, b, k=1):
    r = dict(a)
    for base, p in b.items():
        q = p_add(r.get(base, {}), p, k)
        if q:
            r[base] = q
        else:
            r.pop(base, None)
    return r


def l_scale(a, p):
    r = {}
    for base, q in a.items():
        m = p_mul(q, p)
        if m:
            r[base] = m
    return r


SC_NEW = ('Group::scalar',)
PT_NEW = ('Group::point',)


def same_length(t):
    """the container whose length t has: storing into elements does not change it"""
    if t.op not in ('phi', 'mut'):
        return t
    base, seen, stack, stored = set(), set(), [t], False
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            stack += list(PHI_ALTS.get(x, ()))
        elif x.op == 'mut' and x.a[0] == 'store' and x.a[1] == 0 and len(x.a) == 5:
            stack.append(x.a[2])
            stored = True
        else:
            base.add(x)
    return base.pop() if stored and len(base) == 1 else t


def as_int(c):
    return mk('const', 'int', int(c.a[1])) if c.op == 'const' and c.a[0] == 'bool' else c


class Norm:
    keep32 = False      # narrowing to 32 bits disappears, unless asked for
    def __init__(self, an=None):
        self.an = an
        self.m = {}
        self.mb = {}
        self.busy = set()

    # ---- scalars
    def sc(self, t):
        """polynomial of scalar term t"""
        if t.op == 'call':
            n = t.a[0]
            a = t.a[1:]
            if n in ('Add::add', 'AddAssign::add_assign'):
                return p_add(self.sc(a[0]), self.sc(a[1]))
            if n == 'Sub::sub':
                return p_add(self.sc(a[0]), self.sc(a[1]), -1)
            if n == 'Mul::mul':
                return p_mul(self.sc(a[0]), self.sc(a[1]))
            if n == 'Neg::neg':
                return p_add({}, self.sc(a[0]), -1)
            if n == 'Scalar::sub':
                return p_add(self.sc(a[1]), self.sc(a[2]), -1)
            if n == 'Scalar::neg':
                return p_add({}, self.sc(a[1]), -1)
            if n == 'Scalar::zero':
                return {}
            if n == 'Scalar::one':
                return p_const(1)
            if n == 'Scalar::set_int64' and a[1].op == 'const':
                return p_const(a[1].a[1])
            if n == 'Scalar::set_int64':
                return p_atom(C('int64', self.cv(a[1])))
            if n == 'Scalar::set':
                return self.sc(a[1])
            if n == 'Scalar::inv':
                return p_atom(C('inv', self.sterm(a[1])))
            if n == 'Scalar::div':
                return p_mul(self.sc(a[1]), p_atom(C('inv', self.sterm(a[2]))))
        if t.op == 'mut':
            n, i = t.a[0], t.a[1]
            a = t.a[2:]
            if i == 0 and n == 'AddAssign::add_assign':
                return p_add(self.sc(a[0]), self.sc(a[1]))
            if i == 0 and n == 'MulAssign::mul_assign':
                return p_mul(self.sc(a[0]), self.sc(a[1]))
            if i == 0 and n == 'SubAssign::sub_assign':
                return p_add(self.sc(a[0]), self.sc(a[1]), -1)
            if i == 0 and n == 'Scalar::set':
                return self.sc(a[1])
        c = self.cv_atom(t)
        if c.op == 'scal':
            return dict(c.a[0])
        return p_atom(c)

    def sterm(self, t):
        return self.fs(self.sc(t))

    def fs(self, p):
        """canonical term for polynomial p"""
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return C('scal', p_freeze(p))

    # ---- points
    def pt(self, t):
        if t.op == 'call':
            n = t.a[0]
            a = t.a[1:]
            if n == 'Point::add':
                return l_add(self.pt(a[1]), self.pt(a[2]))
            if n == 'Point::sub':
                return l_add(self.pt(a[1]), self.pt(a[2]), -1)
            if n == 'Point::neg':
                return l_add({}, self.pt(a[1]), -1)
            if n == 'Point::mul':
                s = self.sc(a[1])
                p = a[2]
                if p.op == 'adt' and p.a[1] == 'None':
                    return l_scale({B: p_const(1)}, s)
                if p.op == 'adt' and p.a[1] == 'Some':
                    return l_scale(self.pt(p.a[2][0][1]), s)
                return {C('mulopt', self.cv(p)): s}
            if n == 'Point::base':
                return {B: p_const(1)}
            if n == 'Point::null':
                return {}
            if n == 'Point::set':
                return self.pt(a[1])
            if n == 'Add::add':
                return l_add(self.pt(a[0]), self.pt(a[1]))
            if n == 'Sub::sub':
                return l_add(self.pt(a[0]), self.pt(a[1]), -1)
        if t.op == 'mut' and t.a[1] == 0 and t.a[0] == 'Point::set':
            return self.pt(t.a[3])
        if t.op == 'mut' and t.a[1] == 0 and t.a[0] == 'Point::neg':
            return l_add({}, self.pt(t.a[3]), -1)
        c = self.cv_atom(t)
        if c.op == 'lin':
            return {b: dict(p) for b, p in c.a[0]}
        return {c: p_const(1)}

    def fl(self, l):
        if len(l) == 1:
            (b, p), = l.items()
            if p == {(): 1}:
                return b
        return C('lin', tuple(sorted(((b, p_freeze(p)) for b, p in l.items()), key=lambda x: x[0].id)))

    def pterm(self, t):
        return self.fl(self.pt(t))

    PT_OPS = ('Point::add', 'Point::sub', 'Point::neg', 'Point::mul', 'Point::base', 'Point::null', 'Point::set')
    SC_OPS = ('Scalar::sub', 'Scalar::neg', 'Scalar::zero', 'Scalar::one', 'Scalar::set_int64', 'Scalar::set', 'Scalar::inv', 'Scalar::div',
              'Add::add', 'Mul::mul', 'Sub::sub', 'Neg::neg', 'AddAssign::add_assign', 'MulAssign::mul_assign', 'SubAssign::sub_assign')

    # ---- values
    def cv(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        if t in self.busy:
            return C('rec', t) if t.op != 'phi' else t
        self.busy.add(t)
        try:
            if t.op in ('call', 'mut') and t.a[0] in self.PT_OPS and (t.op == 'call' or t.a[1] == 0):
                r = self.pterm(t)
            elif t.op in ('call', 'mut') and t.a[0] in self.SC_OPS and (t.op == 'call' or t.a[1] == 0):
                r = self.sterm(t)
            else:
                r = self.cv_atom(t)
        finally:
            self.busy.discard(t)
        self.m[t] = r
        return r

    def kind(self, recv):
        if recv.op == 'call' and recv.a[0] in PT_NEW:
            return 'point'
        if recv.op == 'call' and recv.a[0] in SC_NEW:
            return 'scalar'
        return 'value'

    def cv_atom(self, t):
        o = t.op
        a = t.a
        if o in ('param', 'const', 'item', 'fnref', 'uninit'):
            return t
        if o == 'phi':
            return self.phi(t)
        if o == 'cast':
            if a[0] in ('u8', 'i8', 'u16', 'i16', 'bool') or self.keep32 and a[0] in ('u32', 'i32'):
                return C('narrow', a[0], self.cv(a[1]))
            return self.cv(a[1])
        if o == 'vf':
            x = a[0]
            if x.op == 'call' and a[1] in ('Ok', 'Some'):
                n = x.a[0]
                if n == 'BinaryMarshaler::marshal_binary' or n.endswith('as BinaryMarshaler::marshal_binary'):
                    return C('enc', self.cv(x.a[1]))
                if n == 'encoding::encodings::marshal_binary':
                    return C('enc', self.cv(x.a[1]))
                if n in ('Ok', 'from'):
                    return self.cv(x.a[1])
            return C('vf', self.cv(x), a[1], a[2])
        if o == 'elem':
            return C('elem', self.cv(a[0]), a[1])
        if o == 'field':
            b = self.cv(a[0])
            if a[1] == 'i' and b.op == 'call' and b.a[0] in ('share::poly::PubPoly::eval', 'share::poly::PriPoly::eval'):
                return b.a[2]
            if b.op == 'adt':
                for n, v in b.a[2]:
                    if n == a[1]:
                        return v
            return C('field', b, a[1])
        if o == 'adt':
            return C('adt', a[0].split('::')[-1], a[1], tuple((n, self.cv(v)) for n, v in a[2]))
        if o == 'mut':
            n, i, args = a[0], a[1], a[2:]
            if n == 'BinaryUnmarshaler::unmarshal_binary' and i == 0:
                return C('dec', self.kind(args[0]), self.bytes(args[1]))
            if n == 'Marshaling::unmarshal_from' and i == 0:
                return C('dec', self.kind(args[0]), self.bytes(args[1]))
            if n == 'store' and i == 0 and len(args) == 3:
                ix = self.cv(args[1])
                if ix.op == 'const':
                    base = self.cv(args[0])
                    d = {}
                    if base.op == 'stores':
                        d = dict(base.a[1])
                        base = base.a[0]
                    d[ix.a[1]] = self.cv(args[2])
                    return C('stores', base, tuple(sorted(d.items())))
            b = self.bytes_parts(t)
            if b is not None:
                return C('bytes', *b)
            return C('mut', n, i, *[self.cv(x) for x in args])
        if o == 'index':
            base, ix = self.cv(a[0]), self.cv(a[1])
            if base.op == 'stores' and ix.op == 'const':
                d = dict(base.a[1])
                if ix.a[1] in d:
                    return d[ix.a[1]]
                base = base.a[0]
            return C('index', base, ix)
        if o == 'call':
            n = a[0]
            if n in ('Digest::finalize', 'Digest::finalize_reset', 'FixedOutput::finalize_fixed', 'Digest::finalize_into_reset'):
                return C('hash', self.bytes(a[1]))
            if n == 'Digest::digest':
                return C('hash', self.bytes(a[1]))
            if n in ('GenericArray::as_slice', 'GenericArray::to_vec', 'slice::to_vec', 'Into::into', 'From::from', 'array::to_vec', 'ToOwned::to_owned', 'try_into', 'from_slice', 'GenericArray::from_slice'):
                return self.cv(a[1])
            if n == 'Scalar::set_bytes':
                return C('scb', self.bytes(a[2]))
            if n == 'slice' and len(a) == 3:
                return self.slice(a[1], a[2])
            b = self.bytes_parts(t)
            if b is not None:
                return C('bytes', *b)
            if n in ('len', 'is_empty'):
                x = self.cv(same_length(a[1]))
                if x.op == 'stores':
                    x = x.a[0]
                return C('call', n, x)
            if n == 'Marshaling::marshal_size' and a[1].op in ('call', 'mut'):
                r0 = a[1]
                while r0.op == 'mut':
                    r0 = r0.a[2 + r0.a[1]]
                k = self.kind(r0)
                if k != 'value':
                    return C('size', k)
            if n == 'Group::point_len':
                return C('size', 'point')
            if n == 'Group::scalar_len':
                return C('size', 'scalar')
            if n == 'PointCanCheckCanonicalAndSmallOrder::is_canonical':
                return C('canonical', 'point', self.bytes(a[2]))
            if n == 'ScalarCanCheckCanonical::is_canonical':
                return C('canonical', 'scalar', self.bytes(a[2]))
            if n == 'PointCanCheckCanonicalAndSmallOrder::has_small_order':
                return C('small_order', self.cv(a[1]))
            return C('call', n, *[self.cv(x) if isinstance(x, T) else x for x in a[1:]])
        if o in ('array',) and a and all(x.op == 'const' and x.a[0] == 'int' and 0 <= x.a[1] < 256 for x in a):
            return C('bytes', C('const', 'str', ''.join(chr(x.a[1]) for x in a)))
        if o in ('eq', 'lt', 'has', 'is', 'not', 'and', 'or', 'istest'):
            return self.pred(t)

        def rec(x):
            if isinstance(x, T):
                return self.cv(x)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x
        return C(o, *[rec(x) for x in a])

    def phi(self, t):
        b = self.bytes_parts(t)
        if b is not None:
            return C('bytes', *b)
        alts = PHI_ALTS.get(t, ())
        cs = set()
        for x in alts:
            if x.op == 'phi' and x in self.busy:
                return t
            c = self.cv(x)
            cs.add(c)
        cs.discard(t)
        if len(cs) == 1:
            c = cs.pop()
            if not mentions(c, t):
                return c
        return t

    def slice(self, v, r):
        rn = {}
        if r.op == 'adt':
            rn = dict(r.a[2])
        elif r.op == 'item':
            return self.cv(v)
        st = rn.get('start')
        en = rn.get('end')
        c = self.cv(v)
        z = mk('const', 'int', 0)
        s = self.cv(st) if st is not None else z
        if s.op == 'const' and s.a[1] == 0:
            s = z
        e = self.cv(en) if en is not None else C('end')
        if s is z and e.op == 'end':
            return c
        if e is C('call', 'len', c):
            e = C('end')
        if c.op == 'stores' and s.op == 'const' and e.op in ('const', 'end'):
            lo = s.a[1]
            hi = e.a[1] if e.op == 'const' else 1 << 60
            d = {k - lo: v for k, v in c.a[1] if lo <= k < hi}
            b0 = self.slice_c(c.a[0], s, e)
            return C('stores', b0, tuple(sorted(d.items()))) if d else b0
        return self.slice_c(c, s, e)

    def slice_c(self, c, s, e):
        if c.op == 'slice' and s.op == 'const' and c.a[1].op == 'const':
            s2 = mk('const', 'int', s.a[1] + c.a[1].a[1])
            if e.op == 'const':
                return C('slice', c.a[0], s2, mk('const', 'int', e.a[1] + c.a[1].a[1]))
            if e.op == 'end':
                return C('slice', c.a[0], s2, c.a[2])
        return C('slice', c, s, e)

    # ---- byte sequences
    EMPTY = ('Digest::new', 'HashFactory::hash', 'Vec::new', 'Vec::with_capacity', 'Default::default', 'String::new', 'Digest::new_with_prefix_')
    APPEND = {'Digest::update', 'Update::update', 'Write::write_all', 'Write::write', 'Vec::extend_from_slice', 'Extend::extend', 'Vec::push',
              'Vec::append', 'Vec::extend', 'Write::by_ref', 'Vec::write_all', 'Digest::chain_update', 'Update::chain', 'String::push_str', 'Write::flush',
              'Hasher::update'}

    def bytes(self, t):
        p = self.bytes_parts(t)
        if p is None:
            c = self.cv(t)
            if c.op == 'bytes':
                return c
            p = (c,)
        return C('bytes', *p)

    def parts(self, t):
        return self.bytes(t).a

    def bytes_parts(self, t):
        """tuple of parts, or None when t is not built from pieces here"""
        if t in self.mb:
            return self.mb[t]
        self.mb[t] = None
        r = self._bp(t)
        self.mb[t] = r
        return r

    def _bp(self, t):
        o, a = t.op, t.a
        if o == 'call':
            n = a[0]
            if n in self.EMPTY:
                return ()
            if n in ('Digest::chain_update', 'Update::chain'):
                return self.parts(a[1]) + self.parts(a[2])
            if n == 'Digest::new_with_prefix':
                return self.parts(a[1])
            if n in ('slice::concat', 'Concat::concat', 'Join::join') and a[1].op == 'array':
                out = ()
                for x in a[1].a:
                    out += self.parts(x)
                return out
            if n in ('collect',) and a[1].op in ('ichain',):
                return None
            if n.endswith(('::to_le_bytes', '::to_be_bytes')) and len(a) == 2:
                return (C('num', n.split('::')[0], as_int(self.cv(a[1]))),)
            if n == 'iter' and len(a) == 2:
                return self.parts(a[1])
        if o == 'mut':
            n, i, args = a[0], a[1], a[2:]
            if i == 0 and n in self.APPEND and len(args) > 1:
                return self.parts(args[0]) + self.parts(args[1])
            if i == 0 and n == 'Write::flush':
                return self.parts(args[0])
            if i == 0 and n in ('Digest::reset', 'Reset::reset', 'Vec::clear', 'Digest::finalize_reset', 'FixedOutputReset::finalize_fixed_reset'):
                return ()
            if i == 0 and n.startswith('WriteBytesExt::write_'):
                return self.parts(args[0]) + (C('num', n.split('_')[-1], as_int(self.cv(args[1]))),)
            if n.endswith('marshal_to') and i == 1:
                return self.parts(args[1]) + (C('enc', self.cv(args[0])),)
            if n == 'splice' and i == 0:
                return self.splices(t)
        if o == 'phi':
            return self.loop_bytes(t)
        if o == 'iter' and len(a) == 1 and a[0].op not in ('iter', 'adt'):
            return self.parts(a[0])
        return None

    def splices(self, t):
        regs = {}
        while t.op == 'mut' and t.a[0] == 'splice':
            v, r, nv = t.a[2], t.a[3], t.a[4]
            d = dict(r.a[2]) if r.op == 'adt' else {}
            s = self.cv(d['start']) if 'start' in d else mk('const', 'int', 0)
            if s not in regs:
                regs[s] = nv
            t = v
        if all(s.op == 'const' for s in regs):
            ks = sorted(regs, key=lambda s: s.a[1])
        else:
            ks = sorted(regs, key=lambda s: (0 if s.op == 'const' else 1, s.id))
        out = ()
        for k in ks:
            out += self.parts(regs[k])
        return out

    def loop_bytes(self, t):
        """a loop phi: initial content followed by rep(container, parts)"""
        alts = [x for x in PHI_ALTS.get(t, ()) if x is not t]
        if not alts or len(alts) > 6:
            return None
        MARK = C('self', t)
        self.mb[t] = (MARK,)
        steps, inits = set(), set()
        ok = True
        sub = {}
        for x in alts:
            if x.op in ('mut', 'call', 'phi'):
                # temporarily make nested results not cached
                saved_m, saved_b = dict(self.m), dict(self.mb)
                p = self._bp(x) if x.op != 'phi' else (self.loop_bytes(x) if x not in self.mb else self.mb[x])
                self.m, self.mb = saved_m, saved_b
                self.mb[t] = (MARK,)
                if p is None:
                    ok = False
                    break
                if p and p[0] is MARK:
                    steps.add(p[1:])
                else:
                    inits.add(p)
            else:
                ok = False
                break
        self.mb.pop(t, None)
        if not ok or any(C('self', t) in p for p in inits | steps):
            return None
        partial = () in steps or t in PHI_GATE.get(t, ())
        steps.discard(())
        if not steps and len(inits) == 1:
            return inits.pop()
        if len(steps) != 1 or not inits:
            return None
        step = steps.pop()
        base = min(inits, key=len)
        for p in inits:
            if p != base and p != base + step:
                return None
        ls = set()
        from absint import loops_in
        for s in step:
            ls |= loops_in(s)
        conts = []
        for s in step:
            for y in subterms_np(s):
                if y.op == 'elem' and y.a[1] != 'L':   # 'L': a loop inside an already recognised repetition
                    conts.append(y.a[0])
        cont = conts[0] if len(set(conts)) == 1 else C('tuple', *sorted(set(conts), key=lambda x: x.id))
        st2 = tuple(erase_loops(s) for s in step)
        rl = self.an.rev_loops if self.an is not None else ()
        if any(l in rl or isinstance(l, tuple) and len(l) == 2 and l[0] == 'prev' and l[1] in rl for l in ls):
            cont = C('call', 'rev', cont)
        if partial:
            cont = C('partly', cont)     # some iterations add nothing
        return base + self.unchain(cont, st2)

    def unchain(self, cont, step):
        if cont.op == 'call' and cont.a[0] == 'chain' and len(cont.a) == 3:
            out = ()
            for c in cont.a[1:]:
                s2 = tuple(swap_elem(s, cont, c) for s in step)
                out += self.unchain(c, s2)
            return out
        if cont.op == 'call' and cont.a[0] in ('sources::once', 'iter::once', 'once::once') and len(cont.a) == 2:
            e = C('elem', cont, 'L')
            return tuple(subst(s, {e: cont.a[1]}) for s in step)
        return (C('rep', cont, step),)

    # ---- predicates
    def pred(self, t):
        o, a = t.op, t.a
        if o == 'eq':
            return self.eq(a[0], a[1])
        if o == 'lt':
            return C('lt', self.cv(a[0]), self.cv(a[1]))
        if o == 'has':
            return C('has', self.cv(a[0]), self.cv(a[1]))
        if o in ('is', 'istest'):
            return C('is', self.isterm(a[0]), a[1])
        if o in ('not', 'and', 'or'):
            return C(o, *sorted([self.cv(x) for x in a], key=lambda x: x.id))
        return C(o, *[self.cv(x) if isinstance(x, T) else x for x in a])

    def isterm(self, t):
        return self.cv(t)

    def eq(self, x, y):
        a, b = self.cv(x), self.cv(y)
        for _ in range(3):
            if a.op == 'enc' and b.op == 'enc':
                a, b = a.a[0], b.a[0]
            elif a.op == 'bytes' and b.op == 'bytes' and len(a.a) == 1 and len(b.a) == 1:
                a, b = a.a[0], b.a[0]
            else:
                break
        if a.op == 'lin' or b.op == 'lin' or a is B or b is B:
            d = l_add(self.pt(a), self.pt(b), -1)
            return self.eqz(d)
        if a.op == 'scal' or b.op == 'scal':
            d = p_add(self.sc(a), self.sc(b), -1)
            return C('eqs', self.sign_s(d))
        if b.id < a.id:
            a, b = b, a
        return C('eq', a, b)

    def check_eq(self, poly, share):
        """what PubPoly::check(poly, share) states"""
        base = mk_field(poly, 'b')
        ev = mk('field', mk('call', 'share::poly::PubPoly::eval', poly, mk_field(share, 'i')), 'v')
        return self.eq(ev, mk('call', 'Point::mul', mk('uninit', 'p'), mk_field(share, 'v'), base))

    def eqz(self, d):
        if len(d) == 2 and all(p in ({(): 1}, {(): -1}) for p in d.values()):
            (a, p), (b, q) = sorted(d.items(), key=lambda kv: kv[0].id)
            if p != q and a is not B and b is not B:
                return C('eq', a, b)
        f = tuple(sorted(((b, p_freeze(p)) for b, p in d.items()), key=lambda x: x[0].id))
        g = tuple((b, tuple((m, -c) for m, c in p)) for b, p in f)
        # canonical sign: first coefficient positive
        if f and f[0][1][0][1] < 0:
            f = g
        return C('eqp', f)

    def sign_s(self, d):
        f = p_freeze(d)
        if f and f[0][1] < 0:
            f = tuple((m, -c) for m, c in f)
        return f


def subterms_np(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x in out:
            continue
        out.add(x)
        if x.op != 'phi':
            st.extend(children(x))
    return out


def mk_field(t, n):
    if t.op == 'adt':
        return dict(t.a[2]).get(n, mk('field', t, n))
    return mk('field', t, n)


def swap_elem(t, c, d):
    return subst(t, {C('elem', c, 'L'): C('elem', d, 'L')})


_el = {}


def erase_loops(t):
    r = _el.get(t)
    if r is not None:
        return r
    if not t.a or t.op == 'phi':
        return t

    def rec(x):
        if isinstance(x, T):
            return erase_loops(x)
        if isinstance(x, tuple) and not (t.op == 'elem'):
            return tuple(rec(y) for y in x)
        return x
    if t.op == 'elem':
        r = mk('elem', erase_loops(t.a[0]), 'L')
    else:
        r = mk(t.op, *[rec(x) for x in t.a])
    _el[t] = r
    return r
