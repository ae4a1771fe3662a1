"""Loads the facts dumped by the compiler driver and indexes them."""
import json, re

INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def strip_generics(p):
    """remove generic argument lists from a path: Foo::<A, B>::bar -> Foo::bar"""
    out = []
    d = 0
    i = 0
    lead = p.startswith('<')
    s = p
    # trait-qualified paths `<X as Y>::m` are kept in a canonical form X as Y::m
    res = ''
    while i < len(s):
        c = s[i]
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            res += c
        i += 1
    return res.replace('::::', '::').strip(':')


def adt_last(p):
    return p.split('::')[-1] if p else p


class Callee:
    """A resolved callee: `short` is a stable readable key, `path` the definition path."""
    __slots__ = ('d', 'path', 'short', 'name', 'trait', 'self_adt', 'local', 'body', 'res', 'args', 'clean')

    def __init__(self, d, prog):
        self.d = d
        self.path = d['p']
        self.name = d.get('name', d['p'].split('::')[-1])
        self.trait = d.get('trait')
        self.self_adt = d.get('self_adt')
        self.args = d.get('args', [])
        self.local = d.get('local', False)
        self.short = short_name(d)
        self.clean = clean_name(d)
        r = d.get('res')
        self.res = r
        b = None
        if r is not None:
            b = prog.bodies.get(r['p'])
        elif d.get('in_trait'):
            if d.get('res_default'):
                b = prog.bodies.get(d['p'])
        else:
            b = prog.bodies.get(d['p'])
        if b is None and d['p'] == 'std::default::Default::default' and self.args and self.args[0].startswith('std::boxed::Box<'):
            b = prog.bodies.get('<%s as std::default::Default>::default' % self.args[0][len('std::boxed::Box<'):-1])
        self.body = b


def short_name(d):
    n = d.get('name', d['p'].split('::')[-1])
    tr = d.get('trait')
    if tr:
        return adt_last(strip_generics(tr)) + '::' + n
    sa = d.get('self_adt')
    if sa:
        return adt_last(sa) + '::' + n
    st = d.get('self')
    if st:
        st = st.lstrip('&')
        if st.startswith('['):
            st = 'slice'
        return st.split('<')[0].split('::')[-1] + '::' + n
    parts = strip_generics(d['p']).split('::')
    return '::'.join(parts[-2:])


def clean_name(d):
    """canonical full name: <self adt path>[ as Trait]::name, or module path"""
    n = d.get('name', d['p'].split('::')[-1])
    sa = d.get('self_adt')
    if sa:
        if d.get('trait') and not d.get('in_trait'):
            return '%s as %s::%s' % (sa, adt_last(strip_generics(d['trait'])), n)
        return sa + '::' + n
    return strip_generics(d['p'])


class Body:
    def __init__(self, j):
        self.j = j
        self.path = j['p']
        self.name = j.get('name', j['p'].split('::')[-1])
        self.clean = clean_name(j) if j.get('kind') != 'Closure' else j['p']
        self.kind = j.get('kind')
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.proms = j.get('proms', [])
        self.loc = j.get('loc', ['?', 0])
        self.ret = j.get('ret', '')
        self.derived = j.get('derived', False)
        self._cfg = None
        self._unr = None

    # --- CFG helpers
    def succs(self, b):
        te = self.blocks[b]['te']
        t = te['t']
        if t in ('goto', 'drop', 'assert'):
            return [te['to']]
        if t == 'call':
            return [te['to']] if te['to'] is not None else []
        if t == 'switch':
            return [x[1] for x in te['ts']] + [te['else']]
        return []

    def written_out(self, o, depth=0):
        """the length of the array literal an operand comes from, if it does"""
        if depth > 8 or o['k'] not in ('copy', 'move') or o['p'][1]:
            return None
        ds = []
        for bl in self.blocks:
            for s in bl['st']:
                if s['s'] == '=' and s['d'][0] == o['p'][0]:
                    ds.append((s['d'][1], s['v']))
            te = bl['te']
            if te['t'] == 'call' and te['dest'][0] == o['p'][0]:
                ds.append((te['dest'][1], te))
        if len(ds) != 1 or ds[0][0]:
            return None
        v = ds[0][1]
        if v.get('t') == 'call':
            f = v['f'].get('fn', {}).get('name')
            return self.written_out(v['args'][0], depth + 1) if f in ('into_iter', 'iter', 'enumerate', 'rev', 'zip', 'map', 'copied', 'cloned') and v['args'] else None
        if v['r'] == 'agg':
            return len(v['ops']) if v['ak'] == 'array' else None
        if v['r'] in ('use', 'cast') and 'o' in v:
            return self.written_out(v['o'], depth + 1)
        if v['r'] == 'ref':
            p = v['p']
            if [e[0] for e in p[1]] in ([], ['*']):
                return self.written_out({'k': 'copy', 'p': [p[0], []]}, depth + 1)
        return None

    def unroll_once(self):
        """repeat the body of one loop over an array that is written out in the function, once per element"""
        g = self._graph()
        for h, body in g['loops'].items():
            if len(body) > 60:
                continue
            for b in body:
                te = self.blocks[b]['te']
                if te['t'] != 'call' or te['f'].get('fn', {}).get('name') != 'next' or g['inner'].get(b) != h or 'unr' in te:
                    continue
                n = self.written_out(te['args'][0])
                if n is None or not 0 < n <= 6:
                    continue
                new = list(self.blocks)
                maps = [{x: x for x in body}]
                for k in range(1, n + 1):
                    m = {}
                    for x in sorted(body):
                        m[x] = len(new)
                        new.append(None)
                    maps.append(m)
                import copy
                dead = len(new)
                new.append({'st': [], 'te': {'t': 'unreachable', 'l': te.get('l', 0), 'mac': False}, 'cl': False})
                for k in range(n, -1, -1):
                    m = maps[k]

                    def to(x, y):
                        if y == h and (x, h) in g['back']:
                            return maps[k + 1][h] if k < n else dead
                        return m.get(y, y)
                    for x in body:
                        bl = copy.deepcopy(self.blocks[x])
                        t = bl['te']
                        if x == b:
                            t['unr'] = k
                        if t.get('to') is not None and t['t'] in ('goto', 'drop', 'assert', 'call'):
                            t['to'] = to(x, t['to'])
                        elif t['t'] == 'switch':
                            t['ts'] = [[v, to(x, y)] for v, y in t['ts']]
                            t['else'] = to(x, t['else'])
                        new[m[x]] = bl
                self.blocks = new
                return True
        return False

    def unrolled(self):
        """this body with the loops over written out arrays unrolled"""
        if self._unr is None:
            b = self
            if any(s['s'] == '=' and s['v']['r'] == 'agg' and s['v'].get('ak') == 'array' for bl in self.blocks for s in bl['st']):
                import copy
                c = copy.copy(self)
                c._cfg = None
                ch = False
                for _ in range(4):
                    if not c.unroll_once():
                        break
                    ch = True
                if ch:
                    c._unr = c
                    b = c
            self._unr = b
        return self._unr

    def cfg(self):
        if self._cfg:
            return self._cfg
        self._cfg = self._graph()
        self._cfg['live'] = self._liveness(self._cfg['rpo'])
        self._cfg['ctr'] = self._counters()
        return self._cfg

    def _graph(self):
        n = len(self.blocks)
        order = []
        seen = set()
        # iterative postorder
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                if b not in preds[s]:
                    preds[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        back = set()
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    back.add((b, s))
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        inner = {}
        for b in rpo:
            best = None
            for h, bd in loops.items():
                if b in bd and (best is None or len(bd) < len(loops[best])):
                    best = h
            inner[b] = best
        return dict(rpo=rpo, idx=idx, preds=preds, idom=idom, dom=dom, loops=loops, back=back, inner=inner)

    def _counters(self):
        """locals that count the iterations of a loop: {head: {local: (step, block of the loop's test)}}"""
        g = self._cfg
        out = {}
        for h, body in g['loops'].items():
            asg = {}
            tmp = {}
            bad = set()
            for b in body:
                for st in self.blocks[b]['st']:
                    if st['s'] != '=':
                        continue
                    d, v = st['d'], st['v']
                    if d[1]:
                        bad.add(d[0])
                        continue
                    if v['r'] == 'bin' and v['op'] in ('AddWithOverflow', 'SubWithOverflow', 'Add', 'Sub', 'AddUnchecked', 'SubUnchecked') \
                            and v['a']['k'] in ('copy', 'move') and not v['a']['p'][1] and v['b']['k'] == 'const' and v['b'].get('v') in ('1', 1):
                        k = (v['a']['p'][0], 1 if v['op'].startswith('Add') else -1)
                        if v['op'].endswith('Overflow'):
                            tmp[d[0]] = None if d[0] in tmp else k
                            continue
                        if k[0] == d[0]:
                            asg.setdefault(d[0], []).append((b, k[1]))
                            continue
                    if v['r'] == 'use' and v['o']['k'] in ('copy', 'move') and len(v['o']['p'][1]) == 1 and v['o']['p'][1][0][0] == 'f' and v['o']['p'][1][0][1] == 0:
                        asg.setdefault(d[0], []).append((b, ('t', v['o']['p'][0])))
                        continue
                    bad.add(d[0])
                te = self.blocks[b]['te']
                if te['t'] == 'call':
                    bad.add(te['dest'][0])
            for c, l in asg.items():
                if c in bad or c in self.addr_taken or self.locals[c]['ty'] not in INTS:
                    continue
                steps = set()
                blocks = {}
                for b, k in l:
                    s = k
                    if isinstance(k, tuple):
                        x = tmp.get(k[1])
                        s = x[1] if x and x[0] == c else None
                    steps.add(s)
                    blocks[b] = blocks.get(b, 0) + 1
                    if g['inner'].get(b) != h:
                        steps.add(None)
                if len(steps) != 1 or None in steps:
                    continue
                # exactly one step on every way round
                cnt = {h: {0}}
                work = [h]
                latch = set()
                while work:
                    b = work.pop()
                    o = {min(n + blocks.get(b, 0), 2) for n in cnt[b]}
                    for s in self.succs(b):
                        if s == h:
                            latch |= o
                        elif s in body and not o <= cnt.setdefault(s, set()):
                            cnt[s] |= o
                            work.append(s)
                if latch != {1}:
                    continue
                # the test that leaves the loop, before the step
                lat = [b for b, s in g['back'] if s == h]
                b = h
                for _ in range(12):
                    ss = [s for s in self.succs(b)]
                    te = self.blocks[b]['te']
                    if te['t'] == 'switch':
                        ins = [s for s in set(ss) if s in body and s != h]
                        outs = [s for s in set(ss) if s not in body]
                        if len(ins) == 1 and len(outs) == 1 and cnt[b] == {0} and b not in blocks:
                            out.setdefault(h, {})[c] = (steps.pop(), b, outs[0])
                        break
                    ss = [s for s in set(ss) if s in body]
                    if len(ss) != 1 or ss[0] == h or b in blocks:
                        break
                    b = ss[0]
        return out

    def _liveness(self, rpo):
        use = {}
        deff = {}
        ADDR = set()

        def place_uses(p, s):
            s.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    s.add(e[1])

        def op_uses(o, s):
            if o['k'] in ('copy', 'move'):
                place_uses(o['p'], s)

        def rv_uses(v, s):
            for k in ('o', 'a', 'b'):
                if k in v and isinstance(v[k], dict):
                    op_uses(v[k], s)
            if 'p' in v:
                place_uses(v['p'], s)
            for o in v.get('ops', []):
                op_uses(o, s)
        for b in rpo:
            u, d = set(), set()
            for st in self.blocks[b]['st']:
                if st['s'] == '=':
                    s = set()
                    rv_uses(st['v'], s)
                    if st['v']['r'] == 'ref':
                        ADDR.add(st['v']['p'][0])
                    if st['d'][1]:
                        place_uses(st['d'], s)
                    u |= (s - d)
                    if not st['d'][1]:
                        d.add(st['d'][0])
                elif st['s'] == 'dead':
                    pass
            te = self.blocks[b]['te']
            s = set()
            if te['t'] == 'switch' or te['t'] == 'assert':
                op_uses(te['o'], s)
                if te['t'] == 'assert':
                    for m in te['msg'][1:]:
                        if isinstance(m, dict):
                            op_uses(m, s)
            elif te['t'] == 'call':
                op_uses(te['f'], s)
                for a in te['args']:
                    op_uses(a, s)
                if te['dest'][1]:
                    place_uses(te['dest'], s)
            elif te['t'] == 'return':
                s.add(0)
            u |= (s - d)
            if te['t'] == 'call' and not te['dest'][1]:
                d.add(te['dest'][0])
            use[b], deff[b] = u, d
        live = {b: set() for b in rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(rpo):
                o = set()
                for s in self.succs(b):
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.addr_taken = ADDR
        return live


class Program:
    def __init__(self, path):
        F = json.load(open(path))
        self.F = F
        self.bodies = {}
        for j in F['bodies']:
            self.bodies[j['p']] = Body(j)
        self.by_clean = {}
        for b in self.bodies.values():
            self.by_clean.setdefault(b.clean, []).append(b)
        self.adts = {a['p']: a for a in F['adts']}
        self.consts = {c['p']: c for c in F['consts']}
        self.impls = F['impls']
        self._cal = {}

    def callee(self, d):
        k = id(d)
        c = self._cal.get(k)
        if c is None:
            c = Callee(d, self)
            self._cal[k] = c
        return c

    def find(self, clean):
        r = self.by_clean.get(clean, [])
        return r[0] if r else None

    def fields(self, adt):
        a = self.adts.get(adt)
        return [f['n'] for f in a['variants'][0]['fields']] if a else None
