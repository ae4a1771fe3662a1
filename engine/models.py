"""Models of std functions / combinators for the abstract interpreter.
model(...) returns a list of (state, value) or None for the generic treatment."""
from terms import *
import absint as A

NONE = mk('adt', 'Option', 'None', ())


def some(x):
    return mk('adt', 'Option', 'Some', (('0', x),))


def ok(x):
    return mk('adt', 'Result', 'Ok', (('0', x),))


def err(x):
    return mk('adt', 'Result', 'Err', (('0', x),))


OPT = ('Some', 'None')
RES = ('Ok', 'Err')


def is_iter(v):
    return v.op in A.ITERS


def half_open(an, r):
    """a range whose end is included, as one whose end is not"""
    one = mk('const', 'int', 1)
    if r.op == 'call' and r.a[0] == 'RangeInclusive::new' and len(r.a) == 3:
        return mk('adt', 'std::ops::Range', 'Range', (('start', r.a[1]), ('end', an.arith('Add', r.a[2], one))))
    if r.op == 'adt' and r.a[1] == 'RangeToInclusive':
        return mk('adt', 'std::ops::RangeTo', 'RangeTo', (('end', an.arith('Add', dict(r.a[2])['end'], one)),))
    return r


def as_iter(an, st, v):
    """iterator description for value v (deep container)"""
    if v.op == 'ref':
        v = an.read(st, v.a[0], v.a[1])
    if v.op == 'ref':
        return as_iter(an, st, v)
    if v.op in A.ITERS:
        return v
    v = an.deep(st, v)
    if v.op == 'phi' and an.lists.get(v) is not None:
        return an.lists[v]
    return mk('iter', half_open(an, v))


def mutable_source(an, st, v, aty, s):
    """remember which place a mutable iterator walks over"""
    t = aty[0] if aty else ''
    if v.op != 'ref' or not ('mut' in s.split('::')[-1] or t.startswith('&') and 'mut ' in t.split('<')[0].split('[')[0]):
        return
    root, path = v.a
    w = an.read(st, root, path)
    while w.op == 'ref':
        root, path = w.a
        w = an.read(st, root, path)
    if w.op in A.ITERS:
        return
    an.itersrc[an.deep(st, w)] = (root, path, 'HashMap<' in t or 'BTreeMap<' in t or s.startswith(('HashMap', 'BTreeMap')))


def fork_opt(an, st, t):
    return an.variants(st, t, OPT)


def elems(an, st, it, L, te, site):
    """states & value of 'the element' yielded by iterator it for loop id L.
    A list of (state, value) for the non-exhausted outcomes."""
    o = it.op
    if o == 'iter':
        c = it.a[0]
        if c.op == 'adt' and c.a[0].endswith(('ops::Range', 'ops::RangeInclusive')):
            d = dict(c.a[2])
            e = mk('elem', c, L)
            s = an.assume(st, mk('lt', e, d['end']), True) if 'end' in d and c.a[0].endswith('Range') else st
            if s is None:
                return []
            return [(s, e)]
        if c.op in A.ITERS:
            return elems(an, st, c, L, te, site)
        return [(st, an.elem_of(c, L))]
    if o == 'irev':
        return elems(an, st, wrap_rev(it.a[0]), L, te, site)
    if o == 'ienum':
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            c = base_container(it.a[0])
            n = an.length(c)
            i = mk('elem', mk('adt', 'std::ops::Range', 'Range', (('start', mk('const', 'int', 0)), ('end', n))), L)
            if drops(it.a[0]):
                # counts the elements let through, not positions of the container
                i = mk('elem', mk('call', 'counting', it.a[0]), L)
            s2 = an.assume(s, mk('lt', i, n), True)
            if s2 is not None:
                out.append((s2, mk('tuple', i, v)))
        return out
    if o == 'izip':
        out = []
        l, r = it.a
        if drops(l):
            r = wrap_rev(r, 'shifted')
        if drops(r):
            l = wrap_rev(l, 'shifted')
        for s, v in elems(an, st, l, L, te, site):
            for s2, w in elems(an, s, r, L, te, site):
                out.append((s2, mk('tuple', v, w)))
        return out
    if o in ('imap', 'iinspect'):
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            for s2, w in an.call_value(s, None, it.a[1], [v], te, (site, 'map', L)):
                out.append((s2, w if o == 'imap' else v))
        return out
    if o in ('ifilter',):
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            for s2, w in an.call_value(s, None, it.a[1], [v], te, (site, 'filt', L)):
                s3 = an.assume(s2, an.deep(s2, w), True)
                if s3 is not None:
                    out.append((s3, v))
                if an.skip_sink is not None:
                    s4 = an.assume(s2, an.deep(s2, w), False)
                    if s4 is not None:
                        an.skip_sink.append((L, s4))
        return out
    if o == 'ifilter_map':
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            for s2, w in an.call_value(s, None, it.a[1], [v], te, (site, 'fm', L)):
                w = an.deep(s2, w)
                for s3, var in fork_opt(an, s2, w):
                    if var == 'Some':
                        out.append((s3, an.payload(w, 'Some')))
                    elif an.skip_sink is not None:
                        an.skip_sink.append((L, s3))
        return out
    if o in ('iskip', 'itake', 'itakewhile', 'iskipwhile', 'istep'):
        return elems(an, st, it.a[0], L, te, site)
    if o == 'ichain':
        return elems(an, st, it.a[0], L, te, site) + elems(an, st, it.a[1], L, te, site)
    if o == 'iflat' and len(it.a) > 1:
        # a flattened sequence of options: those that are absent are skipped
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            v = an.deep(s, v)
            for s3, var in an.variants(s, v, OPT if it.a[1] == 'opt' else RES):
                if var in ('Some', 'Ok'):
                    out.append((s3, an.payload(v, var)))
                elif an.skip_sink is not None:
                    an.skip_sink.append((L, s3))
        return out
    if o == 'iflat':
        out = []
        for s, v in elems(an, st, it.a[0], L, te, site):
            v = an.deep(s, v)
            if v.op == 'adt' and v.a[1] in ('Some', 'Ok'):
                out.append((s, an.payload(v, v.a[1])))
            else:
                out.append((s, mk('elem', v, L)))
        return out
    return [(st, mk('elem', it, L))]


def part_of(it, op, n):
    """an iterator over part of the elements only: its container is another one"""
    if it.op == 'iter':
        return mk('iter', mk('call', 'part:' + op, it.a[0], n))
    if it.op in ('imap', 'ienum', 'iinspect', 'ifilter', 'ifilter_map'):
        return mk(it.op, part_of(it.a[0], op, n), *it.a[1:])
    if it.op == 'izip' and op in ('skip', 'take', 'step_by'):
        return mk('izip', *[part_of(x, op, n) for x in it.a])
    return mk({'skip': 'iskip', 'take': 'itake', 'step_by': 'istep', 'take_while': 'itakewhile', 'skip_while': 'iskipwhile'}[op], it, n)


def visit(an, st, it, L, te, site):
    """-> (states with the visited element, states in which a filter skips the element)"""
    old = an.skip_sink
    an.skip_sink = []
    it, back = strip_rev(it)
    if back:
        an.rev_loops.add(L)
    try:
        res = elems(an, st, it, L, te, site)
        return res, [s for l, s in an.skip_sink if l == L]
    finally:
        an.skip_sink = old


def listed(it):
    """how many elements the iterator yields, if they are written out one by one"""
    o = it.op
    if o == 'iter':
        c = it.a[0]
        if c.op in A.ITERS:
            return listed(c)
        return len(c.a) if c.op == 'array' and 0 < len(c.a) <= 6 else None
    if o in ('irev', 'ienum', 'imap', 'iinspect'):
        return listed(it.a[0])
    if o == 'izip':
        l = listed(it.a[0])
        return l if l is not None and l == listed(it.a[1]) else None
    return None


def nth(an, st, it, k, te, site):
    """element k of an iterator whose elements are written out"""
    o = it.op
    if o == 'iter':
        c = it.a[0]
        return nth(an, st, c, k, te, site) if c.op in A.ITERS else [(st, c.a[k])]
    if o == 'irev':
        return nth(an, st, it.a[0], listed(it) - 1 - k, te, site)
    if o == 'ienum':
        return [(s, mk('tuple', mk('const', 'usize', k), v)) for s, v in nth(an, st, it.a[0], k, te, site)]
    if o == 'izip':
        return [(s2, mk('tuple', v, w)) for s, v in nth(an, st, it.a[0], k, te, site) for s2, w in nth(an, s, it.a[1], k, te, site)]
    out = []
    for s, v in nth(an, st, it.a[0], k, te, site):
        for s2, w in an.call_value(s, None, it.a[1], [v], te, (site, 'map', k)):
            out.append((s2, w if o == 'imap' else v))
    return out


def one_by_one(an, st, it, name, args, te, site):
    """for_each, fold, any, all and their kin over elements that are written out"""
    n = listed(it)
    fold = 'fold' in name
    cl = args[2] if fold else args[1]
    isopt = 'Option' in te.get('dty', '')
    cur = [(st, args[1] if fold else UNIT)]
    out = []
    for k in range(n):
        nxt = []
        for s, acc in cur:
            for s2, v in nth(an, s, it, k, te, (site, k)):
                for s3, w in an.call_value(s2, None, cl, [acc, v] if fold else [v], te, (site, 'lit', k)):
                    if name in ('any', 'all'):
                        w = an.deep(s3, w)
                        stop = name == 'any'
                        a = an.assume(s3, w, stop)
                        if a is not None:
                            out.append((a, TRUE if stop else FALSE))
                        b = an.assume(s3, w, not stop)
                        if b is not None:
                            nxt.append((b, UNIT))
                    elif name.startswith('try'):
                        wv = an.deep(s3, w)
                        for s4, var in an.variants(s3, wv, OPT if isopt else RES):
                            if var in ('Ok', 'Some'):
                                nxt.append((s4, an.payload(wv, var)))
                            else:
                                out.append((s4, NONE if isopt else err(an.payload(wv, 'Err'))))
                    else:
                        nxt.append((s3, w if fold else UNIT))
        if len(nxt) > 24:
            return None
        cur = nxt
    for s, v in cur:
        if name in ('any', 'all'):
            v = FALSE if name == 'any' else TRUE
        elif name.startswith('try'):
            v = some(v) if isopt else ok(v)
        out.append((s, v))
    return merge_same(an, out, site) if name in ('any', 'all') else out


def strip_rev(it):
    """(iterator without the reversal of its visiting order, is it reversed)"""
    if it.op == 'irev':
        i, b = strip_rev(it.a[0])
        return i, not b
    if it.op in ('imap', 'ifilter', 'ifilter_map', 'iinspect'):
        i, b = strip_rev(it.a[0])
        return (mk(it.op, i, *it.a[1:]), b) if i is not it.a[0] else (it, b)
    return it, False


def plain_list(it):
    return it.op == 'iter' and it.a[0].op not in A.ITERS and not (it.a[0].op == 'adt')


def drops(it):
    """the iterator may leave out elements of its container"""
    if it.op in ('ifilter', 'ifilter_map', 'iflat', 'iskipwhile'):
        return True
    return any(drops(x) for x in it.a if hasattr(x, 'op') and x.op in A.ITERS)


def wrap_rev(it, tag='rev'):
    """an iterator over the reversed container: what it yields keeps no relation to positions of the container"""
    if it.op == 'iter':
        return mk('iter', mk('call', tag, base_container(it)))
    return mk(it.op, wrap_rev(it.a[0], tag), *it.a[1:]) if it.a and hasattr(it.a[0], 'op') else it


def base_container(it):
    while it.op in ('irev', 'imap', 'ienum', 'iinspect'):
        it = it.a[0]
    if it.op in ('iskip', 'itake', 'istep'):
        return mk('call', 'part:' + it.op[1:], base_container(it.a[0]), *it.a[1:])
    if it.op == 'iter':
        c = it.a[0]
        if c.op in A.ITERS:
            return base_container(c)
        return c
    return it


def to_each(facts0, st, L):
    """facts gained since facts0 that mention elem(L), turned into universally quantified facts"""
    out = []
    for f in st.facts:
        if f in facts0:
            continue
        if A.loop_kind(f[0], L) == 1:
            out.append((A.subst_loop(f[0], L, ('each', L)), f[1]))
    return out


def drop_loop(st, L):
    dn = mk('done', L)
    return A.State(st.mem, frozenset(f for f in st.facts if A.loop_kind(f[0], L) == 0 and f[0] is not dn), st.vac)


def drop_done(st, L):
    d = (mk('done', L), True)
    return A.State(st.mem, st.facts - {d}, st.vac) if d in st.facts else st


def prev_state(st, L):
    return A.State(A.prev_mem(st.mem, L), frozenset(f for f in st.facts if ('prev', L) not in A.loops_in(f[0])), st.vac)


def quant(an, st, it, clo, te, site, want, wrap):
    """for any/all/find/position. Evaluate closure on elem; returns (witness states, universal state or None)
    want: boolean closure value that stops the search. wrap(v, idx)->witness value"""
    L = (site, 'q')
    st = drop_loop(st, L)
    f0 = st.facts
    wit = []
    vis, uni = visit(an, st, it, L, te, site)
    for s, v in vis:
        for s2, w in an.call_value(s, None, clo, [v], te, (site, 'q')):
            w = an.deep(s2, w)
            a = an.assume(s2, w, want)
            if a is not None:
                wit.append((a, wrap(a, v)))
            b = an.assume(s2, w, not want)
            if b is not None:
                uni.append(b)
    us = None
    if uni:
        gained = None
        for u in uni:
            g = set(to_each(f0, u, L))
            gained = g if gained is None else gained & g
        if 2 <= len(uni) <= 4:
            fs = [frozenset(f for f in u.facts if A.loop_kind(f[0], L) == 1) for u in uni]
            com = frozenset.intersection(*fs)
            gained = set(gained) | {(A.subst_loop(f[0], L, ('each', L)), f[1]) for f in an.disj(fs, com, None, True)}
        mem = an.join([st] + uni, (site, 'quant')).mem if any(u.mem != st.mem for u in uni) else st.mem
        us = A.State(dict(mem), f0 | frozenset(gained) | {(mk('done', L), True)}, st.vac)
    else:
        us = st   # empty collection
    return wit, us


OPS = {'bitxor': 'BitXor', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}
OPS.update({k + '_assign': v for k, v in list(OPS.items())})


# std calls that panic when their argument is out of range -> the argument
PANICKY = {'Vec::remove': 1, 'Vec::swap_remove': 1, 'Vec::insert': 1, 'Vec::split_off': 1, 'Vec::drain': 1, 'slice::swap': 1, 'slice::chunks': 1,
           'slice::chunks_exact': 1, 'slice::windows': 1, 'slice::rotate_left': 1, 'slice::rotate_right': 1, 'Iterator::step_by': 1, 'VecDeque::remove': 1,
           'GenericArray::from_slice': 0, 'GenericArray::clone_from_slice': 0, 'RefCell::borrow_mut': 0, 'RefCell::borrow': 0, 'String::remove': 1,
           'Cell::unwrap': 0, 'slice::copy_within': 1, 'str::split_at': 1, 'char::from_digit': 1}


def model(an, st, fr, c, args, aty, te, site):
    s = c.short
    name = c.name
    dty = te.get('dty', '')

    def ret(v, st_=None):
        return [(st_ or st, v)]

    def d(i):
        return an.deep(st, args[i])

    if s in A.IDENT_REF:
        return ret(args[0])
    if s in A.IDENT_VAL:
        a = args[0]
        if a.op == 'ref':
            a = an.read(st, a.a[0], a.a[1])
        return ret(a)
    if s in ('Into::into', 'From::from'):
        src = aty[0].lstrip('&') if aty else ''
        if src in A.INT_TYS and dty in A.INT_TYS:
            return ret(d(0))
        if dty == src or 'Vec<u8>' in dty or dty.startswith('std::boxed::Box'):
            return ret(d(0))
        if dty == 'bool':
            return ret(d(0))
        if src.endswith('Error') or 'Error' in dty:
            return ret(mk('call', 'from', d(0)))
        return None
    tail = s.split('::')[-1]
    if tail in OPS and len(args) == 2 and len(aty) == 2 and aty[0].lstrip('&').replace('mut ', '') in A.INT_TYS and aty[1].lstrip('&') in A.INT_TYS and \
            s.split('::')[0].replace('Assign', '').lower() == tail.replace('_assign', ''):
        if not tail.endswith('_assign'):
            return ret(an.arith(OPS[tail], d(0), d(1)))
        if args[0].op == 'ref':
            an.write(st, args[0].a[0], args[0].a[1], an.arith(OPS[tail], d(0), d(1)))
            return ret(UNIT)
    if s == 'FromResidual::from_residual':
        v = d(0)
        if v.op == 'adt':
            if v.a[1] == 'None':
                return ret(NONE)
            if v.a[1] == 'Err':
                return ret(err(mk('call', 'from', an.payload(v, 'Err'))))
        if dty.startswith('std::option'):
            return ret(NONE)
        return ret(err(mk('call', 'from', an.payload(v, 'Err'))))
    if s == 'Try::branch':
        v = d(0) if args[0].op == 'ref' else args[0]
        isopt = (aty[0] if aty else '').startswith('std::option')
        vs = OPT if isopt else RES
        out = []
        for s2, var in an.variants(st, v, vs):
            if var in ('Some', 'Ok'):
                out.append((s2, mk('adt', 'ControlFlow', 'Continue', (('0', an.payload(v, var)),))))
            elif var == 'None':
                out.append((s2, mk('adt', 'ControlFlow', 'Break', (('0', NONE),))))
            else:
                out.append((s2, mk('adt', 'ControlFlow', 'Break', (('0', err(an.payload(v, 'Err'))),))))
        return out
    if s == 'Try::from_output':
        return ret(ok(args[0]) if 'Result' in dty else some(args[0]))

    # ---- Option / Result
    if s in ('Option::take', 'Option::replace') and args[0].op == 'ref':
        a = args[0]
        old = an.read(st, a.a[0], a.a[1])
        st2 = st.copy()
        nv = NONE if name == 'take' else some(d(1))
        if an.record and a.a[0][0] == 'O':
            an.emit(st, fr, 'store', 'store', None, [], te.get('l'), recv=an.pdesc(st, a.a[0], a.a[1]), val=nv)
        an.write(st2, a.a[0], a.a[1], nv)
        return ret(old, st2)
    if c.self_adt and c.self_adt.endswith(('option::Option', 'result::Result')):
        return optres(an, st, fr, c, args, aty, te, site, s.split('::')[0] == 'Option')

    # ---- comparisons
    if c.trait and c.trait.endswith('PartialEq') and name in ('eq', 'ne'):
        e = an.eq(d(0), d(1))
        if an.record:
            an.emit(st, fr, 'call', s, c.clean, [d(0), d(1)], te.get('l'), recv=an.recv(st, args), site=site, dty=dty)
        return ret(e if name == 'eq' else mk('not', e))
    if c.trait and c.trait.endswith('PartialOrd') and name in ('lt', 'le', 'gt', 'ge'):
        return ret(an.cmp(name.capitalize(), d(0), d(1)))
    if s in ('Ord::min', 'Ord::max', 'cmp::min', 'cmp::max'):
        return ret(mk('call', name, d(0), d(1)))
    if s == 'ConstantTimeEq::ct_eq':
        return ret(an.eq(d(0), d(1)))
    if s in ('Not::not',):
        return ret(mk('not', d(0)))

    # ---- len / emptiness
    if name == 'len' and len(args) == 1 and (not c.local):
        return ret(an.length(d(0)) if not is_iter(d(0)) else an.length(base_container(d(0))))
    if name == 'is_empty' and len(args) == 1 and not c.local:
        return ret(mk('call', 'is_empty', d(0)))

    # ---- containers
    owner = s.split('::')[0]
    if owner in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        if name == 'get_mut' and args[0].op == 'ref':
            m, k = d(0), d(1)
            out = []
            a = an.assume(st, mk('has', m, k), True)
            if a is not None:
                out.append((a, some(mk('ref', args[0].a[0], args[0].a[1] + (('i', k),)))))
            b = an.assume(st, mk('has', m, k), False) if (mk('made', m, k), True) not in st.facts else None
            if b is not None:
                out.append((b, NONE))
            elif a is None:
                out.append((st, some(mk('ref', args[0].a[0], args[0].a[1] + (('i', k),)))))
            return out
        if name in ('get', 'get_mut', 'get_key_value'):
            return ret(mk('call', 'get', d(0), d(1)))
        if name in ('contains_key', 'contains'):
            return ret(mk('has', d(0), d(1)))
        if name == 'entry':
            t = mk('call', 'entry', d(0), d(1))
            if args[0].op == 'ref':
                an.entries[t] = (args[0].a[0], args[0].a[1])
            return ret(t)
        if name == 'insert':
            old = d(0)
            k = d(1)
            v = d(2) if len(args) > 2 else UNIT
            if an.record:
                an.emit(st, fr, 'call', s, c.clean, [old, k, v], te.get('l'), recv=an.recv(st, args), dty=dty, site=site)
            st2 = st.copy()
            if args[0].op == 'ref':
                an.write(st2, args[0].a[0], args[0].a[1], mk('mut', 'insert', 0, old, k, v))
            return ret(mk('call', 'insert_ret', old, k) if len(args) > 2 else mk('not', mk('has', old, k)), st2)
    if owner in ('Entry', 'VacantEntry', 'OccupiedEntry'):
        r = entry_call(an, st, fr, c, args, te, site, name, owner)
        if r is not None:
            return r
    if owner in ('slice', 'Vec', 'array', 'VecDeque'):
        if name in ('get', 'get_mut') and 'usize' in (aty[1] if len(aty) > 1 else 'usize') and 'Range' not in (aty[1] if len(aty) > 1 else ''):
            # position inside: has(c,i)  <=>  i < len(c)
            cc, i = d(0), d(1)
            out = []
            t = mk('call', 'get', cc, i)
            lt = mk('lt', i, an.length(cc))
            a = an.assume(st, lt, True)
            if a is not None:
                a = an.assume(a, mk('istest', t, 'Some'), True)
                if a is not None:
                    out.append((a, some(mk('ref', args[0].a[0], args[0].a[1] + (('i', i),)) if name == 'get_mut' and args[0].op == 'ref' else an.index(cc, i))))
            b = an.assume(st, lt, False)
            if b is not None:
                b = an.assume(b, mk('istest', t, 'None'), True)
                if b is not None:
                    out.append((b, NONE))
            return out
        if name in ('first', 'last') and len(args) == 1:
            cc = d(0)
            out = []
            a = an.assume(st, mk('call', 'is_empty', cc), False)
            if a is not None:
                i = mk('const', 'int', 0) if name == 'first' else mk('bin', 'Sub', an.length(cc), mk('const', 'int', 1))
                out.append((a, some(an.index(cc, i))))
            b = an.assume(st, mk('call', 'is_empty', cc), True)
            if b is not None:
                out.append((b, NONE))
            return out
    if name == 'contains' and owner in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'RangeToInclusive', 'RangeBounds'):
        b = range_bounds(d(0))
        if b is not None:
            lo, hi, incl = b
            x = d(1)
            cs = []
            if lo is not None:
                cs.append(mk('not', mk('lt', x, lo)))
            if hi is not None:
                cs.append(mk('not', mk('lt', hi, x)) if incl else mk('lt', x, hi))
            return ret(mk('and', *cs))
    if an.record and s in PANICKY and len(args) > PANICKY[s]:
        an.emit(st, fr, 'panic', 'limit', c.clean, [d(0), d(PANICKY[s])], te.get('l'), extra=te.get('dty', '') if s.startswith('GenericArray') else aty[0] if aty else '', site=site)
    if s in ('slice::split_at', 'slice::split_at_mut'):
        if an.record:
            an.emit(st, fr, 'panic', 'index', c.clean, [d(0), d(1)], te.get('l'), extra=aty[0] if aty else '', site=site)
        lo = mk('adt', 'std::ops::RangeTo', 'RangeTo', (('end', d(1)),))
        hi = mk('adt', 'std::ops::RangeFrom', 'RangeFrom', (('start', d(1)),))
        if s == 'slice::split_at':
            return ret(mk('tuple', mk('call', 'slice', d(0), lo), mk('call', 'slice', d(0), hi)))
        if args[0].op == 'ref':
            return ret(mk('tuple', mk('ref', args[0].a[0], args[0].a[1] + (('rg', lo),)), mk('ref', args[0].a[0], args[0].a[1] + (('rg', hi),))))
    if s in ('Index::index', 'IndexMut::index_mut'):
        i = half_open(an, d(1))
        if an.record:
            an.emit(st, fr, 'panic', 'index', c.clean, [d(0), i], te.get('l'), extra=aty[0] if aty else '', site=site)
        isrange = i.op == 'adt' and 'Range' in i.a[0]
        if isrange:
            if s == 'Index::index':
                return ret(mk('call', 'slice', d(0), i))
            # mutable slice of a buffer: writes go to that region of the buffer
            if args[0].op == 'ref':
                return ret(mk('ref', args[0].a[0], args[0].a[1] + (('rg', i),)))
            return ret(args[0])
        if args[0].op == 'ref':
            return ret(mk('ref', args[0].a[0], args[0].a[1] + (('i', i),)))
        return ret(an.index(d(0), i))

    # ---- iterators
    if s in A.ITER_OF:
        mutable_source(an, st, args[0], aty, s)
        return ret(as_iter(an, st, args[0]))
    if s in A.VALUES:
        mutable_source(an, st, args[0], aty, s)
        return ret(mk('iter', mk('call', 'values', d(0))))
    if s in A.KEYS:
        return ret(mk('iter', mk('call', 'keys', d(0))))
    if (c.trait and c.trait.endswith('::Iterator')) or s in ('Itertools::collect_vec', 'DoubleEndedIterator::next_back', 'DoubleEndedIterator::rfind', 'ExactSizeIterator::len'):
        return iters(an, st, fr, c, args, aty, te, site)

    if s in ('slice::copy_from_slice', 'slice::clone_from_slice') and args[0].op == 'ref':
        if an.record:
            an.emit(st, fr, 'call', s, c.clean, [d(0), d(1)], te.get('l'), recv=an.recv(st, args), dty=dty, site=site)
            src = args[0].a[1][-1][1] if args[0].a[1] and args[0].a[1][-1][0] == 'rg' else None
            an.emit(st, fr, 'panic', 'copy', c.clean, [an.read(st, args[0].a[0], args[0].a[1][:-1]) if src is not None else d(0), d(1)] + ([src] if src is not None else []),
                    te.get('l'), extra=tuple(aty), site=site)
        st2 = st.copy()
        an.write(st2, args[0].a[0], args[0].a[1], d(1))
        return ret(UNIT, st2)

    if name == 'clone_from' and args and args[0].op == 'ref' and (c.body is None or c.trait):
        st2 = st.copy()
        an.write(st2, args[0].a[0], args[0].a[1], d(1))
        return ret(UNIT, st2)

    # ---- mem
    if s in ('mem::swap',):
        x, y = args
        if x.op != 'ref' or y.op != 'ref':
            return None
        vx, vy = an.read(st, x.a[0], x.a[1]), an.read(st, y.a[0], y.a[1])
        st2 = st.copy()
        for t, v in ((x, vy), (y, vx)):
            if an.record and t.a[0][0] == 'O':
                an.emit(st, fr, 'store', 'store', None, [], te.get('l'), recv=an.pdesc(st, t.a[0], t.a[1]), val=v)
            an.write(st2, t.a[0], t.a[1], v)
        return ret(UNIT, st2)
    if s in ('mem::take', 'mem::replace'):
        a = args[0]
        if a.op == 'ref':
            old = an.read(st, a.a[0], a.a[1])
            st2 = st.copy()
            nv = d(1) if len(args) > 1 else NONE if dty.startswith(('std::option::Option', 'core::option::Option')) else mk('call', 'Default::default')
            if an.record and a.a[0][0] == 'O':
                an.emit(st, fr, 'store', 'store', None, [], te.get('l'), recv=an.pdesc(st, a.a[0], a.a[1]), val=nv)
            an.write(st2, a.a[0], a.a[1], nv)
            return ret(old, st2)
    if s in ('bool::then', 'bool::then_some'):
        out = []
        b = d(0)
        x = an.assume(st, b, True)
        if x is not None:
            if name == 'then_some':
                out.append((x, some(args[1])))
            else:
                for s2, v in an.call_value(x, None, args[1], [], te, (site, 'then')):
                    out.append((s2, some(v)))
        y = an.assume(st, b, False)
        if y is not None:
            out.append((y, NONE))
        return out
    # arithmetic operator traits on references/ints
    if c.short == 'Default::default' and not args:
        if dty == 'bool':
            return ret(mk('const', 'bool', 0))
        if dty in A.INT_TYS:
            return ret(mk('const', 'int', 0))
    if c.trait and c.trait.startswith('std::ops::') and name in ('add', 'sub', 'mul', 'div', 'rem') and dty in A.INT_TYS:
        return ret(an.arith(name.capitalize(), d(0), d(1)))
    if name in ('checked_sub', 'checked_add', 'checked_mul') and (aty and aty[0] in A.INT_TYS):
        op = {'checked_sub': 'Sub', 'checked_add': 'Add', 'checked_mul': 'Mul'}[name]
        a, b = d(0), d(1)
        v = an.arith(op, a, b)
        if op == 'Sub':
            out = []
            x = an.assume(st, mk('lt', a, b), False)
            if x is not None:
                out.append((x, some(v)))
            y = an.assume(st, mk('lt', a, b), True)
            if y is not None:
                out.append((y, NONE))
            return out
        t = mk('call', name, a, b)
        return [(s2, some(v) if var == 'Some' else NONE) for s2, var in an.variants(st, t, OPT)]
    if s in ('TryFrom::try_from', 'TryInto::try_into'):
        return ret(mk('call', 'try_into', d(0)))
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_sub', 'saturating_add') and aty and aty[0] in A.INT_TYS:
        return ret(mk('call', name, d(0), d(1)))
    if name == 'div_ceil' and aty and aty[0] in A.INT_TYS:
        n, k = d(0), d(1)
        if k.op == 'const' and k.a[1] > 0 and aty[0][0] == 'u':
            return ret(an.arith('Div', an.arith('Add', n, mk('const', 'int', k.a[1] - 1)), k))
    return None


def entry_call(an, st, fr, c, args, te, site, name, owner):
    e = an.deep(st, args[0])
    while e.op in ('vf', 'as'):
        e = e.a[0]
    if not (e.op == 'call' and e.a[0] == 'entry' and e in an.entries):
        return None
    root, path = an.entries[e]
    m, k = e.a[1], e.a[2]
    slot = mk('ref', root, path + (('i', k),))

    def put(s, v):
        s = s.copy()
        if an.record:
            an.emit(s, fr, 'call', 'HashMap::insert', 'insert', [m, k, an.deep(s, v)], te.get('l'), recv=origin_of(an, s, root, path), dty=te.get('dty'), site=site)
        an.write(s, root, path, mk('mut', 'insert', 0, an.deep(s, an.read(s, root, path)), k, an.deep(s, v)))
        return s
    if owner == 'VacantEntry' and name == 'insert':
        return [(put(st, args[1]), slot)]
    if owner == 'OccupiedEntry':
        if name == 'insert':
            return [(put(st, args[1]), an.index(m, k))]
        if name == 'get':
            return [(st, an.index(m, k))]
        if name in ('get_mut', 'into_mut'):
            return [(st, slot)]
    if name == 'key':
        return [(st, k)]
    if owner == 'Entry' and name in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_entry', 'and_modify'):
        out = []
        x = an.assume(st, mk('has', m, k), True)
        y = an.assume(st, mk('has', m, k), False)
        if name == 'and_modify':
            if x is not None:
                out += [(s, e) for s, _ in an.call_value(x, None, args[1], [slot], te, (site, 'am'))]
            if y is not None:
                out.append((y, e))
            return out
        if y is not None and empty_default(an, y, name, args, te, site):
            return [(st.with_facts([(mk('made', m, k), True)]), slot)]      # an absent list is an empty list
        if x is not None:
            out.append((x, slot))
        if y is not None:
            if name == 'or_insert':
                vs = [(y, args[1])]
            elif name == 'or_default':
                vs = [(y, mk('call', 'Default::default'))]
            else:
                vs = an.call_value(y, None, args[1], [], te, (site, 'oiw'))
            out += [(put(s, v), slot) for s, v in vs]
        return out
    return None


def empty_default(an, st, name, args, te, site):
    if name == 'or_default':
        return any(x in te.get('dty', '') for x in ('Vec<', 'HashMap<', 'BTreeMap<', 'HashSet<'))
    if name == 'or_insert':
        v = an.deep(st, args[1])
    else:
        vs = an.call_value(st, None, args[1], [], te, (site, 'oiw'))
        v = an.deep(vs[0][0], vs[0][1]) if len(vs) == 1 else None
    return v is not None and (v.op == 'array' and not v.a or v.op == 'call' and v.a[0] in ('Vec::new', 'HashMap::new', 'BTreeMap::new', 'HashSet::new', 'Vec::with_capacity') or v is mk('call', 'default'))


def origin_of(an, st, root, path):
    return A.origin(an.pdesc(st, root, path))


def range_bounds(t):
    """(start, end, is the end included) of a range value"""
    if t.op == 'call' and t.a[0] == 'RangeInclusive::new':
        return t.a[1], t.a[2], True
    if t.op == 'adt' and 'Range' in t.a[0]:
        d = dict(t.a[2])
        k = t.a[0].split('::')[-1]
        if k in ('Range', 'RangeFrom', 'RangeTo'):
            return d.get('start'), d.get('end'), False
        if k == 'RangeToInclusive':
            return None, d.get('end'), True
    return None


def optres(an, st, fr, c, args, aty, te, site, isopt):
    name = c.name
    vs = OPT if isopt else RES
    good = vs[0]
    t = args[0]
    if t.op == 'ref':
        t = an.deep(st, t)
    out = []
    if name in ('is_some', 'is_ok', 'is_none', 'is_err'):
        if t.op == 'adt':
            b = (t.a[1] == good) == (name in ('is_some', 'is_ok'))
            return [(st, TRUE if b else FALSE)]
        return [(st, mk('istest', t, {'is_some': 'Some', 'is_ok': 'Ok', 'is_none': 'None', 'is_err': 'Err'}[name]))]
    if name in ('unwrap', 'expect', 'unwrap_err', 'expect_err', 'unwrap_unchecked'):
        v = vs[1] if 'err' in name else good
        if an.record:
            an.emit(st, fr, 'panic', 'unwrap', c.clean, [t, mk('const', 'str', v)], te.get('l'), site=site, extra=aty[0] if aty else '')
        for s2, var in an.variants(st, t, vs):
            if var == v:
                out.append((s2, an.payload(t, var)))
        return out
    if name in ('as_mut', 'as_deref_mut'):
        a = args[0]
        if a.op != 'ref':
            return [(st, t)]
        for s2, var in an.variants(st, t, vs):
            if t.op == 'adt' and not t.a[2]:
                out.append((s2, t))
                continue
            r = mk('ref', a.a[0], a.a[1] + (('dc', var), ('f', '0')))
            out.append((s2, NONE if var == 'None' else mk('adt', 'Option' if isopt else 'Result', var, (('0', r),))))
        return out
    if name in ('as_ref', 'as_deref', 'cloned', 'copied', 'iter'):
        return [(st, t)]
    if name in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'or', 'or_else', 'map', 'map_err', 'and_then', 'ok_or', 'ok_or_else',
                'ok', 'err', 'filter', 'is_some_and', 'is_ok_and', 'is_none_or', 'map_or', 'map_or_else', 'and', 'transpose', 'xor', 'flatten', 'inspect', 'inspect_err'):
        if an.record and name in ('ok', 'err', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'or', 'or_else'):
            an.emit(st, fr, 'call', c.short, c.clean, [an.deep(st, a) for a in args], te.get('l'), site=site, dty=te.get('dty'))
        for s2, var in an.variants(st, t, vs):
            p = an.payload(t, var) if var != 'None' else None
            g = var == good

            def clo(i, a, tag):
                return an.call_value(s2, None, args[i], a, te, (site, tag))
            if name == 'unwrap_or':
                out.append((s2, p if g else args[1]))
            elif name == 'unwrap_or_default':
                out.append((s2, p if g else mk('call', 'Default::default')))
            elif name == 'unwrap_or_else':
                if g:
                    out.append((s2, p))
                else:
                    out += clo(1, [p] if p is not None else [], 'uoe')
            elif name == 'or':
                out.append((s2, t if g else args[1]))
            elif name == 'or_else':
                if g:
                    out.append((s2, t))
                else:
                    out += clo(1, [p] if p is not None else [], 'oe')
            elif name == 'map':
                if g:
                    out += [(s3, some(v) if isopt else ok(v)) for s3, v in clo(1, [p], 'map')]
                else:
                    out.append((s2, NONE if isopt else err(p)))
            elif name == 'map_err':
                if g:
                    out.append((s2, ok(p)))
                else:
                    out += [(s3, err(v)) for s3, v in clo(1, [p], 'maperr')]
            elif name == 'and_then':
                if g:
                    out += clo(1, [p], 'at')
                else:
                    out.append((s2, NONE if isopt else err(p)))
            elif name == 'and':
                out.append((s2, args[1] if g else (NONE if isopt else err(p))))
            elif name in ('ok_or', 'ok_or_else'):
                if g:
                    out.append((s2, ok(p)))
                elif name == 'ok_or':
                    out.append((s2, err(args[1])))
                else:
                    out += [(s3, err(v)) for s3, v in clo(1, [], 'ooe')]
            elif name == 'ok':
                out.append((s2, some(p) if g else NONE))
            elif name == 'err':
                out.append((s2, NONE if g else some(p)))
            elif name == 'filter':
                if not g:
                    out.append((s2, NONE))
                else:
                    for s3, v in clo(1, [p], 'filter'):
                        v = an.deep(s3, v)
                        a = an.assume(s3, v, True)
                        b = an.assume(s3, v, False)
                        if a is not None:
                            out.append((a, some(p)))
                        if b is not None:
                            out.append((b, NONE))
            elif name in ('is_some_and', 'is_ok_and'):
                if g:
                    out += clo(1, [p], 'isand')
                else:
                    out.append((s2, FALSE))
            elif name == 'is_none_or':
                if g:
                    out += clo(1, [p], 'isor')
                else:
                    out.append((s2, TRUE))
            elif name == 'map_or':
                if g:
                    out += clo(2, [p], 'mo')
                else:
                    out.append((s2, args[1]))
            elif name == 'map_or_else':
                if g:
                    out += clo(2, [p], 'moe')
                else:
                    out += clo(1, [p] if p is not None else [], 'moe1')
            elif name == 'inspect':
                if g:
                    out += [(s3, t) for s3, _ in clo(1, [p], 'ins')]
                else:
                    out.append((s2, t))
            elif name == 'inspect_err':
                if not g:
                    out += [(s3, t) for s3, _ in clo(1, [p], 'ins')]
                else:
                    out.append((s2, t))
            elif name == 'flatten':
                out.append((s2, p if g else (NONE if isopt else err(p))))
            elif name == 'transpose':
                out.append((s2, mk('call', 'transpose', t)))
            else:
                out.append((s2, mk('call', c.short, *[an.deep(s2, a) for a in args])))
        return out
    return None


def iters(an, st, fr, c, args, aty, te, site):
    name = c.name
    it = as_iter(an, st, args[0])

    def ret(v, s=None):
        return [(s or st, v)]
    if name in ('map', 'filter', 'filter_map', 'inspect', 'map_while'):
        op = {'map': 'imap', 'filter': 'ifilter', 'filter_map': 'ifilter_map', 'inspect': 'iinspect', 'take_while': 'itakewhile',
              'skip_while': 'iskipwhile', 'map_while': 'ifilter_map'}[name]
        return ret(mk(op, it, args[1]))
    if name == 'enumerate':
        return ret(mk('ienum', it))
    if name == 'zip':
        mutable_source(an, st, args[1], aty[1:], '')
        return ret(mk('izip', it, as_iter(an, st, args[1])))
    if name == 'chain':
        it2 = as_iter(an, st, args[1])
        if plain_list(it) and plain_list(it2):
            return ret(mk('iter', mk('call', 'chain', it.a[0], it2.a[0])))
        return ret(mk('ichain', it, it2))
    if name in ('skip', 'take', 'step_by'):
        return ret(part_of(it, name, an.deep(st, args[1])))
    if name in ('take_while', 'skip_while'):
        return ret(part_of(it, name, args[1]))
    if name == 'rev':
        return ret(it.a[0] if it.op == 'irev' else mk('irev', it))
    if name in ('cloned', 'copied', 'fuse', 'peekable', 'by_ref', 'into_iter', 'cycle'):
        return ret(it)
    if name == 'flatten':
        t0 = aty[0] if aty else ''
        k = None
        import re as _re
        if _re.search(r"(Iter|IterMut|IntoIter|Values|ValuesMut)<('\S+ )?(\S+, )?(&('\S+ )?(mut )?)?std::option::Option<", t0):
            k = 'opt'
        elif _re.search(r"(Iter|IterMut|IntoIter)<('\S+ )?(&('\S+ )?(mut )?)?std::result::Result<", t0):
            k = 'res'
        return ret(mk('iflat', it, k) if k else mk('iflat', it))
    if name == 'flat_map':
        return ret(mk('iflat', mk('imap', it, args[1])))
    if name in ('for_each', 'fold', 'try_for_each', 'try_fold', 'any', 'all') and listed(it):
        r = one_by_one(an, st, it, name, args, te, site)
        if r is not None:
            return r
    if name == 'next' and te.get('unr') is not None:
        n = listed(it)
        if n is not None:
            if te['unr'] >= n:
                return ret(NONE)
            return [(s2, some(v)) for s2, v in nth(an, st, it, te['unr'], te, site)]
    if name in ('next', 'next_back'):
        body = fr.body if fr else None
        L = None
        if fr is not None:
            h = fr.body.cfg()['inner'].get(site[1]) if isinstance(site, tuple) and len(site) == 2 and isinstance(site[1], int) else None
            L = (fr.fid, h) if h is not None else (site, 'n')
        st2 = A.State(st.mem, frozenset(f for f in st.facts if A.loop_kind(f[0], L) != 1), st.vac)
        out = [(A.State(st2.mem, st2.facts | {(mk('done', L), True)}, st2.vac), NONE)]
        vis, skipped = visit(an, st2, it, L, te, site)
        an.skips.setdefault(L, []).extend(skipped)
        for s2, v in vis:
            out.append((s2, some(v)))
        return out
    if name in ('any', 'all'):
        wit, uni = quant(an, st, it, args[1], te, site, name == 'any', lambda s, v: None)
        out = [(s2, TRUE if name == 'any' else FALSE) for s2, _ in wit]
        if uni is not None:
            out.append((uni, FALSE if name == 'any' else TRUE))
        return merge_same(an, out, site)
    if name in ('find', 'rfind'):
        wit, uni = quant(an, st, it, args[1], te, site, True, lambda s, v: v)
        out = [(s2, some(v)) for s2, v in wit]
        if uni is not None:
            out.append((uni, NONE))
        return out
    if name in ('position', 'rposition'):
        L = (site, 'q')
        n = an.length(base_container(it))
        idx = mk('elem', mk('adt', 'std::ops::Range', 'Range', (('start', mk('const', 'int', 0)), ('end', n))), L)
        wit, uni = quant(an, st, it, args[1], te, site, True, lambda s, v: idx)
        out = []
        for s2, v in wit:
            s3 = an.assume(s2, mk('lt', idx, n), True)
            if s3 is not None:
                out.append((s3, some(v)))
        if uni is not None:
            out.append((uni, NONE))
        return out
    if name == 'find_map':
        L = (site, 'fm')
        out = []
        st0 = drop_loop(st, L)
        vis, uni = visit(an, st0, mk('ifilter_map', it, args[1]), L, te, site)
        for s2, v in vis:
            out.append((s2, some(v)))
        gained = None
        for u in uni:
            g = set(to_each(st0.facts, u, L))
            gained = g if gained is None else gained & g
        out.append((A.State(st0.mem, st0.facts | frozenset(gained or ()) | {(mk('done', L), True)}, st0.vac), NONE))
        return out
    if name in ('for_each', 'fold', 'try_for_each', 'try_fold'):
        L = (site, 'fe')
        st0 = drop_loop(st, L)
        fold = 'fold' in name
        cl = args[2] if fold else args[1]
        acc = args[1] if fold else None
        cur = st0
        ACC = ('R', (site, 'acc'))
        first = st0.copy()
        if fold:
            first.mem[ACC] = acc
        res = []
        for rnd in range(3):
            if fold:
                cur = cur.copy()
                cur.mem[ACC] = acc
            nexts = []
            res = []
            rec = an.record
            if rnd < 2:
                an.record = 0
            base = A.State(cur.mem, frozenset(f for f in cur.facts if A.loop_kind(f[0], L) == 0), cur.vac)
            vis, skipped = visit(an, base, it, L, te, site)
            nexts += skipped
            for s2, v in vis:
                a = [an.read_root(s2, ACC), v] if fold else [v]
                for s3, w in an.call_value(s2, None, cl, a, te, (site, 'fe')):
                    res.append((s3, w))
            an.record = rec
            for s3, w in res:
                s3 = s3.copy()
                if name.startswith('try'):
                    wv = an.deep(s3, w)
                    isopt = 'Option' in te.get('dty', '')
                    for s4, var in an.variants(s3, wv, OPT if isopt else RES):
                        if var in ('Ok', 'Some'):
                            s4 = s4.copy()
                            if fold:
                                s4.mem[ACC] = an.payload(wv, var)
                            nexts.append(s4)
                else:
                    if fold:
                        s3.mem[ACC] = w
                    nexts.append(s3)
            gained = None
            for n in nexts:
                g = set(to_each(base.facts, n, L))
                gained = g if gained is None else gained & g
            latch = an.join([drop_done(n, L) for n in nexts], (site, 'fel')) if nexts else None
            cand = [first]
            if latch is not None:
                cand.append(prev_state(drop_loop(latch, L), L))
                cand[1].gate = A.gate_facts(latch, L)
            m = an.join(cand, (site, 'fej'))
            cur = A.State(m.mem, frozenset(f for f in m.facts) | frozenset(gained or ()), m.vac)
            if fold:
                acc = an.read_root(cur, ACC)
        fin = cur.copy()
        fin = A.State(fin.mem, fin.facts | {(mk('done', L), True)}, fin.vac)
        v = fin.mem.pop(ACC, UNIT) if fold else UNIT
        if name.startswith('try'):
            out = []
            isopt = 'Option' in te.get('dty', '')
            out.append((fin, some(v) if isopt else ok(v)))
            for s3, w in res:
                wv = an.deep(s3, w)
                for s4, var in an.variants(s3, wv, OPT if isopt else RES):
                    if var in ('Err', 'None'):
                        s4 = s4.copy()
                        s4.mem.pop(ACC, None)
                        out.append((s4, NONE if isopt else err(an.payload(wv, 'Err'))))
            return out
        return [(fin, v)]
    if name in ('collect', 'collect_vec', 'to_vec', 'sum', 'product', 'count', 'last', 'max', 'min', 'nth', 'max_by', 'min_by',
                'max_by_key', 'min_by_key', 'partition', 'unzip', 'reduce'):
        L = (site, 'c')
        st0 = drop_loop(st, L)
        f0 = st0.facts
        dty = te.get('dty', '')
        res = elems(an, st0, it, L, te, site) if name != 'count' and name not in ('collect', 'collect_vec') else None
        if name in ('last', 'max', 'min', 'nth', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'reduce'):
            out = [(s2, some(an.deep(s2, v))) for s2, v in res]
            out.append((st0, NONE))
            return out
        res, skipped = visit(an, st0, it, L, te, site)
        if name == 'count' and not has_filter(it):
            return ret(an.length(base_container(it)), st0)
        if skipped and (name == 'count' or (name in ('collect', 'collect_vec') and 'Vec<' in dty and not dty.startswith('std::result'))) and all(
                s2.mem == st0.mem for s2, _ in res):
            # one step per element: a filter decides whether it is taken
            key = (site, name, fr.fid if fr else None)
            p, q = phi(key + ('h',)), phi(key + ('q',))
            zero = mk('const', 'int', 0) if name == 'count' else mk('array')
            A.PHI_ALTS.setdefault(p, set()).update({zero, q})
            alts = A.PHI_ALTS.setdefault(q, set())
            g = A.PHI_GATE.setdefault(q, {})
            for s2, v in res:
                inc = an.arith('Add', p, mk('const', 'int', 1)) if name == 'count' else mk('mut', 'Vec::push', 0, p, an.deep(s2, v))
                alts.add(inc)
                g[inc] = g[inc] & s2.facts if inc in g else s2.facts
            alts.add(p)
            gk = None
            for s2 in skipped:
                gk = s2.facts if gk is None else gk & s2.facts
            g[p] = gk
            if name != 'count':
                # walking the list is walking what it was collected from
                itd = an.deep(st0, it)
                an.lists[p] = itd if an.lists.get(p, itd) is itd else None
            return ret(p, A.State(st0.mem, st0.facts | {(mk('done', L), True)}, st0.vac))
        if name == 'count':
            return ret(mk('call', 'count', desc_iter(an, st0, it, res, L)), st0)
        if not res:
            return ret(mk('array') if 'Vec' in dty else mk('call', name), st0)
        vals = [(s2, an.deep(s2, v)) for s2, v in res]
        if name == 'collect' and dty.startswith('std::result::Result'):
            out = []
            goods, bads = [], []
            for s2, v in vals:
                for s3, var in an.variants(s2, v, RES):
                    (goods if var == 'Ok' else bads).append((s3, an.payload(v, var)))
            gained = None
            for s3, _ in goods:
                g = set(to_each(f0, s3, L))
                gained = g if gained is None else gained & g
            if goods:
                mem = an.join([st0] + [drop_loop(s, L) for s, _ in goods], (site, 'cj')).mem
                s4 = A.State(dict(mem), f0 | frozenset(gained) | {(mk('done', L), True)}, st0.vac)
                out.append((s4, ok(coll(an, it, [v for _, v in goods], L, site))))
            for s3, v in bads:
                out.append((s3, err(v)))
            return out
        gained = None
        for s2, v in vals:
            g = set(to_each(f0, s2, L))
            gained = g if gained is None else gained & g
        mem = an.join([st0] + [drop_loop(s, L) for s, _ in vals], (site, 'cj')).mem
        s4 = A.State(dict(mem), f0 | (frozenset(gained) if it.op != 'iter' and False else frozenset()), st0.vac)
        cv = coll(an, it, [v for _, v in vals], L, site)
        if name in ('collect', 'collect_vec', 'to_vec') and ('Vec<' in dty or dty.startswith('std::boxed')):
            return [(s4, cv)]
        if name in ('collect', 'collect_vec'):
            return [(s4, mk('call', 'collect', cv))]
        return [(s4, mk('call', name, cv))]
    if name == 'len':
        return ret(an.length(base_container(it)) if not has_filter(it) else mk('call', 'count', it))
    if name == 'eq':
        return ret(an.eq(an.deep(st, args[0]), an.deep(st, args[1])))
    return None


def coll(an, it, vals, L, site):
    if len(set(vals)) == 1:
        e = vals[0]
    else:
        p = phi((site, 'coll', L))
        A.PHI_ALTS.setdefault(p, set()).update(vals)
        e = p
    filt = has_filter(it)
    c = base_container(it)
    if c.op == 'call' and c.a[0] in A.SHARES and len(c.a) == 3:
        c = mk('adt', 'std::ops::Range', 'Range', (('start', mk('const', 'int', 0)), ('end', c.a[2])))
    if L in an.rev_loops:
        if e.op == 'elem' and e.a[1] == L and not filt and e.a[0] is c:
            return mk('call', 'rev', c)
        return mk('coll', e, mk('call', 'rev', c), L)
    if e.op == 'elem' and e.a[1] == L and not filt and e.a[0] is c:
        return c      # plain copy
    return mk('coll', e, c, L)


def has_filter(it):
    while True:
        if it.op in ('ifilter', 'ifilter_map', 'iskip', 'itake', 'itakewhile', 'iskipwhile', 'ichain', 'izip', 'iflat', 'istep'):
            return True
        if it.op in ('imap', 'ienum', 'iinspect', 'irev'):
            it = it.a[0]
            continue
        return False


def desc_iter(an, st, it, res, L):
    """term describing the filtered iteration: its container, element and the facts selecting it"""
    facts = []
    for s2, v in res:
        sel = [mk('fact', f[0], int(f[1])) for f in s2.facts if f not in st.facts and L in A.loops_in(f[0])]
        facts.append(mk('sel', an.deep(s2, v), tuple(sorted(sel, key=lambda t: t.id))))
    return mk('filtered', base_container(it), tuple(facts))


def merge_same(an, out, site):
    """join outcomes having the same constant value"""
    g = {}
    for s, v in out:
        g.setdefault(v, []).append(s)
    return [(an.join(l, (site, 'ms', v)), v) for v, l in g.items()]
