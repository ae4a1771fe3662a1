"""Rules that range over the whole crate: codecs, equality, copies, and ambient inputs."""
from lib import *
import absint

TESTONLY = ('scalar_test_types', '::test', 'test_utils')


def _skip(p):
    return any(x in p for x in TESTONLY)


# ------------------------------------------------------------------ data flow in one body, over locals
class Flow:
    """where the value of a local comes from: calls (by block), constants and places of the parameters"""

    def __init__(self, body):
        self.b = body
        self.defs = {}
        for i, bl in enumerate(body.blocks):
            if bl.get('cl'):
                continue
            for st in bl['st']:
                if st['s'] == '=':
                    self.defs.setdefault(st['d'][0], []).append(('v', st['v'], st['d'][1]))
            te = bl['te']
            if te['t'] == 'call':
                self.defs.setdefault(te['dest'][0], []).append(('c', i, te['dest'][1]))

    def fn(self, i):
        return self.b.blocks[i]['te']['f'].get('fn') or {}

    def places(self, rv):
        r = rv['r']
        if r in ('ref', 'addr', 'discr', 'len', 'copyref'):
            return [rv['p']]
        out = []
        for k in ('o', 'a', 'b'):
            o = rv.get(k)
            if isinstance(o, dict) and o.get('k') in ('copy', 'move'):
                out.append(o['p'])
            elif isinstance(o, dict) and o.get('k') == 'const':
                out.append(('const', o.get('v'), o.get('ty')))
        for o in rv.get('ops', []):
            if o.get('k') in ('copy', 'move'):
                out.append(o['p'])
            else:
                out.append(('const', o.get('v'), o.get('ty')))
        return out

    def origins(self, place, through=(), seen=None):
        """the set of origins of a place; calls named in `through` pass their first argument on"""
        seen = set() if seen is None else seen
        l = place[0]
        if l == 'const':
            return {place[:3]}
        if 1 <= l <= self.b.argc:
            return {('param', l, tuple((p[1], p[2]) for p in place[1] if p[0] == 'f'))}
        if l in seen:
            return set()
        seen = seen | {l}
        out = set()
        for d in self.defs.get(l, ()):
            if d[0] == 'c':
                f = self.fn(d[1])
                if f.get('name') in through and self.b.blocks[d[1]]['te']['args']:
                    a = self.b.blocks[d[1]]['te']['args'][0]
                    out |= self.origins(a['p'], through, seen) if a['k'] in ('copy', 'move') else {('const', a.get('v'), a.get('ty'))}
                else:
                    out.add(('call', d[1], f.get('p', '?')))
            else:
                ps = self.places(d[1])
                if not ps:
                    out.add(('other', d[1]['r'], ''))
                for p in ps:
                    for o in self.origins(p, through, seen):
                        if o[0] == 'param' and len(p) > 1 and p[0] != l and not isinstance(p[0], str):
                            ext = tuple((q[1], q[2]) for q in p[1] if q[0] == 'f') if not (1 <= p[0] <= self.b.argc) else ()
                            o = (o[0], o[1], o[2] + ext)
                        out.add(o)
        return out


def _fields(P, adt):
    a = P.adts.get(adt)
    return a['variants'][0]['fields'] if a and not a.get('enum') else None


def _ops(o):
    return o['p'] if o['k'] in ('copy', 'move') else ('const', o.get('v'), o.get('ty'))


def W01(ctx):
    from program import Body
    P = ctx.P
    S = {}
    for j in P.F.get('serde', []):
        b = Body(j)
        p = j['p']
        if _skip(p) or '__Field' in p or '__DeserializeWith' in p.split(' as ')[0] and j['name'] != 'visit_seq' or p.startswith('<<'):
            continue
        if j['name'] == 'serialize':
            S.setdefault(j['self_adt'], {})['ser'] = b
        elif j['name'] == 'visit_seq':
            m = j['p'].split("serde::Deserialize<'de> for ", 1)[1]
            from program import strip_generics
            dep = 0
            for k, c in enumerate(m):
                if c == '<':
                    dep += 1
                elif c == '>':
                    dep -= 1
                    if dep < 0:
                        m = m[:k]
                        break
            S.setdefault(strip_generics(m), {})['de'] = b
    n = 0
    for adt in sorted(S):
        fs = _fields(P, adt)
        if fs is None:
            continue
        ser, de = S[adt].get('ser'), S[adt].get('de')
        if ser is None or de is None:
            ctx.bad('codec.pair', adt, '%s has no %s half of its codec' % (adt, 'encoding' if ser is None else 'decoding'))
            continue
        n += 1
        names = [f['n'] for f in fs]
        order = []
        g = ser.cfg()
        fl = Flow(ser)
        done = [i for i in g['rpo'] if ser.blocks[i]['te']['t'] == 'call' and fl.fn(i).get('name') == 'end']
        w = '%s:%s' % tuple(ser.loc)
        for i in g['rpo']:
            te = ser.blocks[i]['te']
            if te['t'] == 'call' and fl.fn(i).get('name') == 'serialize_field':
                o = fl.origins(_ops(te['args'][2]))
                o = [x for x in o if x[0] == 'param' and x[1] == 1 and len(x[2]) == 1]
                one = o[0][2][0][1] if len(o) == 1 else None
                if one is None or one not in names:
                    ctx.bad('codec.encode', adt, 'a value that is not one field of %s is written in its place' % adt, w)
                    continue
                if not done or not all(g['dom'](i, d) for d in done):
                    ctx.bad('codec.encode', adt + '.' + one, 'field %s of %s is not written on every path' % (one, adt), w)
                order.append(one)
        miss = [x for x in names if order.count(x) != 1]
        # a newtype or unit struct is written through other serializer calls
        if not order and len(names) <= 1:
            order = list(names)
            miss = []
        ctx.ob('codec.encode', adt, not miss, 'encoding %s leaves out (or repeats) %s' % (adt, ', '.join(miss)), w)
        g = de.cfg()
        fl = Flow(de)
        reads = [i for i in g['rpo'] if de.blocks[i]['te']['t'] == 'call' and fl.fn(i).get('name') == 'next_element']
        reads.sort(key=lambda i: sum(1 for j in reads if g['dom'](j, i)))
        w = '%s:%s' % tuple(de.loc)
        agg = [st['v'] for bl in de.blocks if not bl.get('cl') for st in bl['st'] if st['s'] == '=' and st['v']['r'] == 'agg' and st['v'].get('adt') == adt]
        if len(agg) != 1:
            ctx.bad('codec.decode', adt, 'decoding %s does not build it in exactly one place' % adt, w)
            continue
        got = {}
        for f, o in zip(agg[0]['fields'], agg[0]['ops']):
            got[f] = fl.origins(_ops(o), through=('branch', 'map', 'from_output'))
        for k, f in enumerate(order):
            src = got.get(f, set())
            ok = k < len(reads) and src and all(x[0] == 'call' and x[1] == reads[k] for x in src)
            ctx.ob('codec.decode', adt + '.' + f, ok,
                   'field %s of %s is written at position %d of the encoding but not (only) read from there' % (f, adt, k), w)
        for f in names:
            if f not in order:
                ctx.bad('codec.decode', adt + '.' + f, 'field %s of %s does not come from the encoding' % (f, adt), w)
    for t in ('Deal', 'Response', 'Justification'):
        for m in ('share::vss::pedersen::vss', 'share::vss::rabin::vss', 'share::dkg::pedersen::structs', 'share::dkg::rabin::dkg'):
            ctx.ob('codec.present', m + '::' + t, 'ser' in S.get(m + '::' + t, {}) and 'de' in S.get(m + '::' + t, {}),
                   '%s::%s has no derived codec' % (m, t))
    for t in ('share::poly::PriShare', 'share::poly::PubShare', 'sign::dss::dss_sig::PartialSig', 'share::vss::pedersen::vss::EncryptedDeal',
              'share::vss::rabin::vss::EncryptedDeal', 'share::dkg::rabin::dkg::SecretCommits', 'share::dkg::rabin::dkg::ComplaintCommits',
              'share::dkg::rabin::dkg::ReconstructCommits', 'share::dkg::pedersen::structs::DistKeyShare', 'share::dkg::rabin::dkg::DistKeyShare'):
        ctx.ob('codec.present', t, 'ser' in S.get(t, {}) and 'de' in S.get(t, {}), '%s has no derived codec' % t)
    # the generic codec
    r = ctx.run('encoding::encodings::marshal_binary', opaque=())
    for e in r.oks():
        ctx.ob('codec.binary', 'marshal_binary', _coded(r, e.pay_raw, 'bincode::serialize', r.p(1)),
               'marshal_binary succeeds with something else than the encoding of its argument')
    r = ctx.run('encoding::encodings::unmarshal_binary', opaque=())
    for e in r.oks():
        ctx.ob('codec.binary', 'unmarshal_binary', _coded(r, e.final_raw(r.p(1)), 'bincode::deserialize', r.p(2)),
               'unmarshal_binary succeeds without having stored the decoded value')
    for e in r.errs():
        ctx.ob('codec.binary', 'unmarshal_binary/error', e.final(r.p(1)) is r.p(1), 'unmarshal_binary changes its target although it fails', None)
    return n


def _coded(r, t, fn, arg):
    """t is the success value of fn(arg)"""
    cs = walk_calls(t)
    return len(cs) == 1 and cs[0].a[0] == fn and cs[0].a[1:] == (arg,) and t is r.an.payload(cs[0], 'Ok')


def walk_calls(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not hasattr(x, 'op'):
            if isinstance(x, (tuple, list, frozenset)):
                st.extend(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'call':
            out.append(x)
        st.extend(x.a)
    return out


def W02(ctx):
    P = ctx.P
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        j = b.j
        if _skip(b.path) or j.get('kind') != 'AssocFn':
            continue
        adt = j.get('self_adt')
        fs = _fields(P, adt) if adt else None
        if not fs:
            continue
        tr = j.get('trait')
        if tr == 'std::cmp::PartialEq' and b.name == 'eq' and not adt.startswith('group::'):
            r = ctx.run(b.clean)
            bad = set()
            ex = r.trues()
            if not ex:
                ctx.bad('equal.fields', adt, 'comparing two %s never yields true' % adt)
            for e in ex:
                cf = e.cf
                for f in fs:
                    if 'PhantomData' in f['ty']:
                        continue
                    if not has_eq(cf, r.cv(r.p(1, f['n'])), r.cv(r.p(2, f['n']))):
                        bad.add(f['n'])
            for f in fs:
                ctx.ob('equal.fields', adt + '.' + f['n'], f['n'] not in bad, 'two %s that differ in %s compare equal' % (adt, f['n']), '%s:%s' % tuple(b.loc))
        elif tr == 'std::clone::Clone' and b.name == 'clone':
            if j.get('derived'):
                ctx.ob('clone.fields', adt, True)
                continue
            r = ctx.run(b.clean)
            for e in r.exits:
                for f in fs:
                    if 'PhantomData' in f['ty']:
                        continue
                    ctx.ob('clone.fields', adt + '.' + f['n'], r.cv(fld(e.ret, f['n'])) is r.cv(r.p(1, f['n'])),
                           'a copy of a %s differs from it in %s' % (adt, f['n']), '%s:%s' % tuple(b.loc))


# ------------------------------------------------------------------ ambient inputs
FORBID = ('std::time::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::', 'std::thread::', 'std::io::stdin', 'std::io::Stdin',
          'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::OnceLock', 'std::sync::atomic::', 'core::sync::atomic::',
          'std::sync::mpsc', 'std::cell::', 'core::cell::', 'std::sync::Condvar', 'std::thread_local', 'std::sync::Once', 'std::sync::poison',
          'core::time::', 'std::os::', 'once_cell::', 'parking_lot::', 'chrono::', 'std::sync::once', 'std::alloc::', 'std::ptr::', 'core::ptr::')
ENTROPY = ('from_entropy', 'thread_rng', 'rand::random', 'rand::rng', 'OsRng', 'getrandom', 'from_os_rng', 'from_rng', 'RandomState::new', 'RandomState')
CELLS = ('Mutex<', 'RwLock<', 'Cell<', 'Atomic', 'OnceLock<', 'LazyLock<', 'UnsafeCell', 'LocalKey<', 'OnceCell<')

# what must not draw entropy: the same arguments always give the same answer
FIXED = '''sign::schnorr::schnorr_sig::verify sign::schnorr::schnorr_sig::verify_with_checks sign::schnorr::schnorr_sig::hash
sign::eddsa::eddsa_sig::verify sign::eddsa::eddsa_sig::verify_with_checks sign::eddsa::eddsa_sig::EdDSA::sign sign::dss::dss_sig::verify
sign::dss::dss_sig::DSS::signature sign::dss::dss_sig::DSS::enough_partial_sig sign::dss::dss_sig::DSS::process_partial_sig sign::dss::dss_sig::PartialSig::hash
sign::dss::dss_sig::session_id
share::poly::recover_secret share::poly::recover_commit share::poly::recover_pri_poly share::poly::recover_pub_poly share::poly::xy_scalar share::poly::xy_commit
share::poly::PriPoly::eval share::poly::PriPoly::shares share::poly::PriPoly::add share::poly::PriPoly::mul share::poly::PriPoly::equal share::poly::PriPoly::commit
share::poly::PubPoly::eval share::poly::PubPoly::shares share::poly::PubPoly::add share::poly::PubPoly::equal share::poly::PubPoly::check share::poly::PubPoly::commit
share::poly::PriShare::hash share::poly::PubShare::hash
share::vss::pedersen::vss::Aggregator::verify_deal share::vss::pedersen::vss::Aggregator::verify_response share::vss::pedersen::vss::Aggregator::verify_justification
share::vss::pedersen::vss::Aggregator::deal_certified share::vss::pedersen::vss::Aggregator::enough_approvals share::vss::pedersen::vss::Aggregator::add_response
share::vss::pedersen::vss::Verifier::process_response share::vss::pedersen::vss::Verifier::process_justification share::vss::pedersen::vss::Verifier::decrypt_deal
share::vss::pedersen::vss::Verifier::deal share::vss::pedersen::vss::Dealer::secret_commit share::vss::pedersen::vss::recover_secret share::vss::pedersen::vss::session_id
share::vss::pedersen::vss::Response::hash share::vss::pedersen::vss::Justification::hash share::vss::pedersen::vss::new_verifier
share::vss::rabin::vss::Aggregator::verify_deal share::vss::rabin::vss::Aggregator::verify_response share::vss::rabin::vss::Aggregator::verify_justification
share::vss::rabin::vss::Aggregator::deal_certified share::vss::rabin::vss::Aggregator::enough_approvals share::vss::rabin::vss::Aggregator::add_response
share::vss::rabin::vss::Verifier::process_response share::vss::rabin::vss::Verifier::process_justification share::vss::rabin::vss::Verifier::decrypt_deal
share::vss::rabin::vss::recover_secret share::vss::rabin::vss::session_id share::vss::rabin::vss::Response::hash share::vss::rabin::vss::Justification::hash
share::vss::dh::context share::vss::rabin::vss::new_verifier
share::dkg::pedersen::dkg::DistKeyGenerator::process_justification share::dkg::pedersen::dkg::DistKeyGenerator::certified share::dkg::pedersen::dkg::DistKeyGenerator::qualified_shares
share::dkg::pedersen::dkg::DistKeyGenerator::dist_key_share share::dkg::pedersen::dkg::DistKeyGenerator::set_timeout share::dkg::pedersen::dkg::DistKeyGenerator::qual
share::dkg::pedersen::dkg::DistKeyGenerator::threshold_certified share::dkg::pedersen::dkg::DistKeyGenerator::expected_deals
share::dkg::rabin::dkg::DistKeyGenerator::process_justification share::dkg::rabin::dkg::DistKeyGenerator::certified share::dkg::rabin::dkg::DistKeyGenerator::qual
share::dkg::rabin::dkg::DistKeyGenerator::dist_key_share share::dkg::rabin::dkg::DistKeyGenerator::finished share::dkg::rabin::dkg::DistKeyGenerator::set_timeout
share::dkg::rabin::dkg::DistKeyGenerator::process_reconstruct_commits share::dkg::rabin::dkg::SecretCommits::hash share::dkg::rabin::dkg::ComplaintCommits::hash
share::dkg::rabin::dkg::ReconstructCommits::hash encrypt::ecies::ecies_impl::decrypt encoding::encodings::marshal_binary encoding::encodings::unmarshal_binary'''.split()


def _calls(P):
    """over-approximate call graph: path -> [(callee path, line, callee description)]"""
    impl = {}
    for b in P.bodies.values():
        j = b.j
        if j.get('trait'):
            impl.setdefault((j['trait'].split('<')[0], b.name), []).append(b.path)
    out = {}
    for b in P.bodies.values():
        acc = []

        def use(d, line):
            if d.get('res'):
                acc.append((d['res']['p'], line))
            elif d.get('in_trait'):
                acc.append((d['p'], line))
                tr = d.get('trait', '').split('<')[0]
                for q in impl.get((tr, d.get('name')), ()):
                    # a default value or a comparison is of the type named at the call, or of an abstract one that holds data only
                    if tr in ('std::default::Default', 'std::clone::Clone', 'std::cmp::PartialEq', 'std::fmt::Display', 'std::fmt::Debug'):
                        a = (d.get('args') or ['?'])[0].split('<')[0]
                        if (P.bodies[q].j.get('self_adt') or '') != a:
                            continue
                    acc.append((q, line))
            else:
                acc.append((d['p'], line))

        def walk(o, line):
            if isinstance(o, dict):
                line = o.get('l', line) if isinstance(o.get('l', line), int) else line
                if isinstance(o.get('fn'), dict):
                    use(o['fn'], line)
                if 'static' in o:
                    if o['static'] + '::{closure#0}' in P.bodies:
                        acc.append((o['static'] + '::{closure#0}', line))
                    acc.extend((f, line) for f in (P.consts.get(o['static']) or {}).get('init', ()))
                for v in o.values():
                    walk(v, line)
            elif isinstance(o, list):
                for v in o:
                    walk(v, line)
        walk(b.blocks, b.loc[1])
        walk(b.proms, b.loc[1])
        for q in P.bodies:
            if q.startswith(b.path + '::{closure'):
                acc.append((q, b.loc[1]))
        out[b.path] = acc
    return out


def X01(ctx):
    P = ctx.P
    cg = _calls(P)
    n = 0
    for p in sorted(cg):
        if _skip(p) or '_benches' in p or '_test' in p:
            continue
        n += 1
        b = P.bodies[p]
        ctx.fns.add(p)
        hits = sorted({(q, l) for q, l in cg[p] if q not in P.bodies and any(q.startswith(x) or ('<' + x) in q for x in FORBID)})
        hits = [h for h in hits if not h[0].startswith(('std::ptr::', 'core::ptr::', 'std::alloc::')) or '_unsafe' in h[0]]
        ctx.ob('ambient.effect', b.clean, not hits, '%s uses %s, a value that is not among its arguments' % (b.clean, ', '.join(sorted({h[0] for h in hits}))[:200]),
               '%s:%s' % (b.loc[0], hits[0][1] if hits else b.loc[1]))
    for c in sorted(P.consts.values(), key=lambda c: c['p']):
        if _skip(c['p']) or not str(c.get('kind', '')).startswith('Static'):
            continue
        ty = c['ty']
        for w in ('std::sync::LazyLock<', 'once_cell::sync::Lazy<'):     # computed once, by code that is subject to the rule above
            ty = ty[len(w):] if ty.startswith(w) else ty
        ok = 'mutability: Not' in c['kind'] and not any(x in ty for x in CELLS)
        ok = ok and not any(f not in P.bodies and any(f.startswith(x) for x in FORBID) for f in c.get('init', ()) if 'lazy_static' not in f and not c['p'].endswith('::LAZY'))
        ctx.ob('ambient.static', c['p'], ok, 'the global %s of type %s can change while the program runs' % (c['p'], c['ty']))
    reach = {}
    work = []
    for p, l in cg.items():
        for q, line in l:
            if q not in P.bodies and any(x in q for x in ENTROPY) and 'HashMap' not in q and 'HashSet' not in q:
                reach.setdefault(p, (q, line))
    rev = {}
    for p, l in cg.items():
        for q, line in l:
            rev.setdefault(q, []).append((p, line))
    ctx.ob('entropy.source', 'RandStream', any('RandStream' in p for p in reach), 'no random stream seeded by the operating system is left')
    work = list(reach)
    while work:
        q = work.pop()
        for p, line in rev.get(q, ()):
            if p not in reach:
                reach[p] = (q, line)
                work.append(p)
    for c in sorted(P.consts.values(), key=lambda c: c['p']):
        if _skip(c['p']) or not str(c.get('kind', '')).startswith('Static'):
            continue
        init = [b for q, b in P.bodies.items() if q == c['p'] + '::{closure#0}' or q.startswith('<%s as std::ops::Deref>::deref' % c['p'])]
        drawn = any(b.path in reach for b in init) or any(f in reach or f not in P.bodies and any(x in f for x in ENTROPY) for f in c.get('init', ()))
        ctx.ob('ambient.static', c['p'], not drawn, 'the global %s is drawn at random when it is first used' % c['p'])
    seen = 0
    for f in FIXED:
        bs = P.by_clean.get(f)
        if not bs:
            continue
        seen += 1
        for b in bs:
            path = []
            x = b.path
            while x in reach and len(path) < 12:
                path.append(x)
                x = reach[x][0]
            ctx.ob('entropy.fixed', f, b.path not in reach, 'the answer of %s depends on fresh randomness: %s' % (f, ' -> '.join(path + [x])[:400]), '%s:%s' % tuple(b.loc))
    ctx.ob('anchor', 'deterministic operations', seen >= 50, 'only %d of the operations that must be deterministic were found' % seen)


# ------------------------------------------------------------------ failures
# operations that turn a failure into an answer; what that answer is, is the subject of other properties
HANDLED = {
    'has_small_order': 'a point that cannot be encoded counts as small',
    'RandStream as Stream::xor_key_stream': 'some sources may fail, not all',
    'dkg_key': 'the failure is kept and returned after the loop', 'dist_key_share': 'the failure is kept and returned after the loop',
    'resharing_key': 'the failure is kept and returned after the loop',
    'process_encrypted_deal': 'a deal that fails its checks is answered by a complaint',
    'unsafe_set_response_dkg': 'a response that is already there is kept',
}
SWALLOW = ('ok', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'is_ok', 'is_err', 'err', 'map_or', 'map_or_else', 'is_ok_and', 'is_err_and', 'iter', 'into_iter',
           'or', 'or_else', 'unwrap_unchecked')
RES = ('std::result::Result', 'core::result::Result')


def _isres(ty):
    return ty.lstrip('&').replace('mut ', '').startswith(RES)


def _behind(b, o):
    """the local a reference operand was taken of, if it is assigned as a whole once"""
    if o.get('k') not in ('copy', 'move') or o['p'][1]:
        return ()
    ds = [st['v'] for bl in b.blocks for st in bl['st'] if st['s'] == '=' and st['d'] == [o['p'][0], []]]
    if len(ds) != 1 or ds[0].get('r') != 'ref' or ds[0]['p'][1]:
        return ()
    v = ds[0]['p'][0]
    n = sum(st['s'] == '=' and st['d'][0] == v for bl in b.blocks for st in bl['st']) + sum(bl['te']['t'] == 'call' and bl['te']['dest'][0] == v for bl in b.blocks)
    return (v,) if n == 1 else ()


# failures that cannot happen where they are met
NEVER = {('group::edwards25519::scalar::', 'little_endian'): 'the integers are reduced'}


def _never(b, o):
    """is the operand the result of a call that cannot fail here?"""
    seen = set()
    while o and o.get('k') in ('copy', 'move') and not o['p'][1] and o['p'][0] not in seen:
        seen.add(o['p'][0])
        nxt = None
        for bl in b.blocks:
            te = bl['te']
            if te['t'] == 'call' and te['dest'] == [o['p'][0], []]:
                n = (te['f'].get('fn') or {}).get('name')
                return any(b.path.startswith(m) and n == f for m, f in NEVER)
            for st in bl['st']:
                if st['s'] == '=' and st['d'] == [o['p'][0], []]:
                    nxt = st['v'].get('o')
        o = nxt
    return False


def _err_path(b, start, kept=()):
    """can control reach the end of b from block `start` without an error being built, or one of the results `kept` returned, on the way?"""
    seen = set()
    work = [start]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        bl = b.blocks[i]
        if any(st['s'] == '=' and st['v']['r'] == 'agg' and st['v'].get('adt') in RES and st['v'].get('var') == 'Err' for st in bl['st']):
            continue
        if any(st['s'] == '=' and st['d'] == [0, []] and st['v'].get('o', {}).get('k') in ('copy', 'move') and st['v']['o']['p'][0] in kept and not st['v']['o']['p'][1]
               for st in bl['st']):
            continue
        te = bl['te']
        if te['t'] == 'call' and ((te['f'].get('fn') or {}).get('name') == 'from_residual' or te['to'] is None):
            continue
        if te['t'] == 'return':
            return True
        work.extend(b.succs(i))
    return False


def X02(ctx):
    P = ctx.P
    cg = _calls(P)
    callers = {}
    for p, l in cg.items():
        for q, _ in l:
            callers.setdefault(q, set()).add(p)

    def handled(p, depth=0):
        c = P.bodies[p].clean if p in P.bodies else p
        if any(c.replace('::<SUITE>', '').replace('::<SUITE, READ>', '').split('::{')[0].endswith(h) or P.bodies[p].path.split('::{')[0].endswith(h) for h in HANDLED):
            return True
        cs = {x for x in callers.get(p, ()) if x != p}
        return depth < 3 and bool(cs) and all(handled(x, depth + 1) for x in cs)
    for p in sorted(P.bodies):
        b = P.bodies[p]
        if _skip(p) or '_benches' in p or '_test' in p or b.derived:
            continue
        used = {}

        def walk(o):
            if isinstance(o, dict):
                if o.get('k') in ('copy', 'move'):
                    used[o['p'][0]] = used.get(o['p'][0], 0) + 1
                    return
                if o.get('r') in ('ref', 'discr', 'len', 'addr'):
                    used[o['p'][0]] = used.get(o['p'][0], 0) + 1
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)
        for bl in b.blocks:
            if bl.get('cl'):
                continue
            for st in bl['st']:
                if st['s'] == '=':
                    walk(st['v'])
            te = bl['te']
            if te['t'] == 'call':
                walk(te['args'])
                walk(te['f'])
            elif te['t'] == 'switch':
                walk(te['o'])
        okh = None
        bad = []
        nob = 0
        tested = {}
        passed = []
        for i in b.cfg()['rpo']:
            bl = b.blocks[i]
            if bl.get('cl'):
                continue
            te = bl['te']
            if te['t'] == 'call':
                fn = te['f'].get('fn') or {}
                if _isres(te.get('dty', '')) and te['dest'][0] != 0:
                    nob += 1
                    if not used.get(te['dest'][0]):
                        bad.append((te['l'], 'the result of %s is dropped' % fn.get('p', '?')))
                for a in te['args']:
                    if a.get('k') == 'const' and isinstance(a.get('fn'), dict) and a['fn'].get('p', '').startswith(RES) and a['fn'].get('name') in SWALLOW:
                        bad.append((te['l'], 'failures are turned into absence with Result::%s' % a['fn']['name']))
                if fn.get('p', '').startswith(RES) or (fn.get('in_trait') and te.get('aty') and _isres(te['aty'][0]) and fn.get('name') == 'into_iter'):
                    nm = fn.get('name')
                    if nm in ('is_err', 'is_ok') and te['to'] is not None:
                        tested[te['dest'][0]] = (nm, te['l'], _behind(b, te['args'][0]))
                    elif nm in SWALLOW and not _never(b, te['args'][0]):
                        bad.append((te['l'], 'a failure is replaced with Result::%s' % nm))
            if te['t'] == 'switch':
                o = te['o']
                loc = o['p'][0] if o.get('k') in ('copy', 'move') and not o['p'][1] else None
                for st in reversed(bl['st']):
                    if st['s'] == '=' and st['d'] == [loc, []] and st['v']['r'] == 'discr' and st['v'].get('adt') in RES:
                        nob += 1
                        vs = {n: v for v, n in st['v']['vs']}
                        tg = dict((x[0], x[1]) for x in te['ts'])
                        t = tg.get(vs.get('Err'), te['else'])
                        pk = str(st['v']['p'])
                        if any(q == pk and b.cfg()['dom'](x, i) for q, x in passed):
                            break      # the failure has already left
                        if not _err_path(b, t):
                            passed.append((pk, i))
                        else:
                            bad.append((st['l'], 'a failure is met and the operation goes on to succeed'))
                        break
                if loc in tested:
                    nm, l, kept = tested.pop(loc)
                    nob += 1
                    tg = dict((str(x[0]), x[1]) for x in te['ts'])
                    t = tg.get('0', te['else']) if nm == 'is_ok' else (te['else'] if '1' not in tg else tg['1'])
                    if _err_path(b, t, kept):
                        bad.append((l, 'a failure is met and the operation goes on to succeed'))
        for loc, (nm, l, _) in tested.items():
            bad.append((l, 'a failure is only looked at with Result::%s' % nm))
        if not nob and not bad:
            continue
        if bad and handled(p):
            bad = []
        ctx.ob('failure.kept', b.clean, not bad, '; '.join(x[1] for x in bad)[:300], '%s:%s in %s' % (b.loc[0], bad[0][0] if bad else b.loc[1], b.clean))


# ------------------------------------------------------------------ secrets in text
# arithmetic types print themselves by nature; whether what they hold is secret is decided by who prints them
PRINTS_SELF = ('group::', 'util::test', 'util::random', 'xof::')
FMT_TRAITS = ('std::fmt::Debug', 'std::fmt::Display', 'std::fmt::LowerHex', 'std::fmt::UpperHex', 'std::fmt::Write', 'std::string::ToString')
# what may be done with a secret inside a printing function: nothing that yields more than its presence or its public point
HARMLESS = ('len', 'is_empty', 'is_some', 'is_none', 'mul', 'drop', 'capacity')
# byte strings that are as secret as the scalar they are kept with
BYTEKEYS = {'sign::eddsa::eddsa_sig::EdDSA': 'every byte string of a signing key'}
# text on request, not display: the one operation whose purpose is to write out a private polynomial
ON_REQUEST = ('PriPoly::string',)


def _split(s):
    out, depth, cur = [], 0, ''
    for i, c in enumerate(s):
        if c in '<([{':
            depth += 1
        elif c in '>)]}' and not (c == '>' and i and s[i - 1] in '-='):
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def _leaves(ty):
    """the types a value is made of, looking through references and the containers of the standard library"""
    t = ty.strip()
    while True:
        if t.startswith('&') or t.startswith('*'):
            t = t[1:].strip()
            for k in ('mut ', 'const '):
                if t.startswith(k):
                    t = t[len(k):].strip()
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else ''
        elif t.startswith('mut '):
            t = t[4:]
        else:
            break
    if not t:
        return []
    if t[0] == '(' and t[-1] == ')':
        return [x for p in _split(t[1:-1]) for x in _leaves(p)]
    if t[0] == '[':
        return _leaves(t[1:-1].rsplit(';', 1)[0]) if t[-1] == ']' else [t]
    if t.startswith(('{', 'fn(', 'dyn ', 'for<', '<')):
        return [t]
    if t.startswith(('std::', 'core::', 'alloc::')) and '<' in t:
        args = [p for p in _split(t[t.index('<') + 1:t.rindex('>')]) if not p.startswith("'")]
        return [x for p in args for x in _leaves(p)] if args else [t]
    return [t]


def _secret(ty):
    return any(x == 'SCALAR' or x.endswith('::SCALAR') or x.endswith('edwards25519::scalar::Scalar') or x.endswith('integer::Int') for x in _leaves(ty or ''))


class Secrets:
    def __init__(self, P):
        self.P = P
        adts = {a['p']: a for a in (P.adts.values() if isinstance(P.adts, dict) else P.adts)}
        self.fty = {p: {f['n']: f['ty'] for v in a['variants'] for f in v['fields']} for p, a in adts.items()}
        # a type that holds secrets somewhere inside
        self.holds = set()
        while True:
            new = {p for p, fs in self.fty.items() if p not in self.holds and not p.startswith(PRINTS_SELF)
                   and any(_secret(t) or (p in BYTEKEYS and self.bytes(t)) or any(self.adt(x) in self.holds for x in _leaves(t)) for t in fs.values())}
            if not new:
                break
            self.holds |= new

    @staticmethod
    def bytes(t):
        return _leaves(t) == ['u8']

    @staticmethod
    def adt(t):
        return t.split('<')[0]

    def field(self, place):
        """the secret field that a place goes through, if any"""
        for e in place[1]:
            if e[0] == 'f' and len(e) > 3 and e[3] in self.fty:
                t = self.fty[e[3]].get(e[2])
                if t and not e[3].startswith(PRINTS_SELF) and (_secret(t) or (e[3] in BYTEKEYS and self.bytes(t))):
                    return '%s.%s' % (e[3].split('::')[-1], e[2])
        return None


def _printers(P):
    """functions that print, with the closures inside them"""
    out = []
    for p, b in P.bodies.items():
        t = (b.j.get('trait') or '').split('<')[0]
        if t in FMT_TRAITS and not (b.j.get('self') or '').startswith(PRINTS_SELF) and not _skip(p) and not p.startswith(tuple('<' + x for x in PRINTS_SELF)):
            out.append(p)
    return sorted(out)


def _places(rv):
    r = rv['r']
    if r in ('discr', 'len'):
        return []
    if r in ('ref', 'addr', 'copyref'):
        return [rv['p']]
    out = [rv[k]['p'] for k in ('o', 'a', 'b') if isinstance(rv.get(k), dict) and rv[k].get('k') in ('copy', 'move')]
    return out + [o['p'] for o in rv.get('ops', []) if o.get('k') in ('copy', 'move')]


class Taint:
    """where secrets go inside one function; results of other functions of the crate are summarised"""

    def __init__(self, P, S):
        self.P, self.S, self.sum, self.leaks, self.caps = P, S, {}, {}, {}

    def plain(self, ty):
        """a type that cannot carry a secret: presence, counts and public points"""
        ls = _leaves(ty)
        return all(x in ('bool', 'usize', '()', '!') or x.endswith('::POINT') or x == 'POINT' or x.endswith('edwards25519::point::Point') or x.endswith('Error') or x.startswith(('std::fmt::', 'core::fmt::')) and 'Argument' not in x
                   for x in ls) if ls else True

    def local(self, fn):
        q = (fn.get('res') or {}).get('p') or fn.get('p') or ''
        b = self.P.bodies.get(q)
        if b is None or q.startswith(PRINTS_SELF) or q.startswith(tuple('<' + x for x in PRINTS_SELF)):
            return None
        return b

    def run(self, b):
        """-> whether the result of b is made from a secret; fills self.leaks[b.path] with [(line, what)]"""
        if b.path in self.sum:
            return self.sum[b.path]
        self.sum[b.path] = None
        S, L = self.S, b.j['locals']
        tn = {i: l.get('n') or 'a private scalar' for i, l in enumerate(L) if _secret(l['ty'])}
        mref = {}
        caps = self.caps.get(b.path)

        def touch(pl):
            if caps and pl[0] == 1:
                k = next((e[1] for e in pl[1] if e[0] == 'f'), None)
                if k in caps:
                    return caps[k]
            return S.field(pl) or tn.get(pl[0])

        def get(o):
            return touch(o['p']) if o.get('k') in ('copy', 'move') else None

        def mark(l, n):
            if l in tn or self.plain(L[l]['ty']):
                return False
            tn[l] = n
            return True
        blocks = [bl for bl in b.blocks if not bl.get('cl')]
        for bl in blocks:
            for st in bl['st']:
                if st['s'] == '=' and st['v']['r'] in ('ref', 'addr') and st['v'].get('m'):
                    mref[st['d'][0]] = st['v']['p'][0]
        more = True
        while more:
            more = False
            for bl in blocks:
                for st in bl['st']:
                    if st['s'] == '=':
                        n = next((touch(p) for p in _places(st['v']) if touch(p)), None)
                        if n:
                            more |= mark(st['d'][0], n)
                te = bl['te']
                if te['t'] != 'call':
                    continue
                fn = te['f'].get('fn') or {}
                n = next((get(a) for a in te['args'] if get(a)), None)
                if n is None:
                    n = next(('a private scalar' for a in te['args'] if a.get('fn') and any(_secret(x) for x in a['fn'].get('args') or [])), None)
                if fn.get('name') in HARMLESS:
                    continue
                if n:
                    for a in te['args']:
                        if a.get('k') == 'move' and a['p'][0] in mref:
                            more |= mark(mref[a['p'][0]], n)
                elif self.local(fn) is not None:
                    n = self.run(self.local(fn))
                elif not (fn.get('p') or '').startswith(('std::', 'core::', 'alloc::', '<std::', '<core::', '<alloc::')):
                    h = [S.adt(x) for a, t in zip(te['args'], te.get('aty') or []) for x in _leaves(t)]
                    h = [x.split('::')[-1] for x in h if x in S.holds]
                    n = 'a whole ' + h[0] if h else None
                if n:
                    more |= mark(te['dest'][0], n)
        out = []
        for bl in blocks:
            for st in bl['st']:
                if st['s'] == '=' and st['v']['r'] == 'cast' and 'dyn std::fmt' in st['v'].get('ty', ''):
                    n = get(st['v'].get('o') or {})
                    if n:
                        out.append((st.get('l'), n))
                elif st['s'] == '=' and st['v']['r'] == 'agg' and (st['v'].get('adt') or '').endswith('Error'):
                    n = next((get(o) for o in st['v']['ops'] if get(o)), None)
                    if n:
                        out.append((st.get('l'), n))
                elif st['s'] == '=' and st['v']['r'] == 'agg' and st['v'].get('ak') == 'closure':
                    caps = {k: get(o) for k, o in enumerate(st['v']['ops']) if get(o)}
                    self.caps.setdefault(st['v']['def'], {}).update(caps)
            te = bl['te']
            fn = te['t'] == 'call' and te['f'].get('fn') or {}
            if not fn:
                continue
            if 'fmt::rt::Argument' in fn.get('p', '') and fn.get('name', '').startswith('new_') or fn.get('name') in ('write_str', 'pad', 'assert_failed') or \
                    (fn.get('trait') or '').split('<')[0] in FMT_TRAITS:
                n = next((get(a) for a in te['args'] if get(a)), None) or next(('a private scalar' for x in fn.get('args') or [] if _secret(x)), None)
                if n:
                    out.append((te.get('l'), n))
        self.leaks[b.path] = sorted(set(out), key=str)
        self.sum[b.path] = tn.get(0)
        return self.sum[b.path]


def X04(ctx):
    P = ctx.P
    S = Secrets(P)
    T = Taint(P, S)
    printers = set(_printers(P))
    ctx.ob('anchor', 'types that hold secrets', len(S.holds) >= 16, 'only %d types that hold private scalars or key bytes were found' % len(S.holds))
    kinds = set()
    for p in sorted(P.bodies):
        b = P.bodies[p]
        if _skip(p) or '_bench' in p or '_test' in p or p.startswith(PRINTS_SELF) or p.startswith(tuple('<' + x for x in PRINTS_SELF)):
            continue
        if any(b.clean.endswith(x) for x in ON_REQUEST):
            continue
        T.run(b)
        ctx.fns.add(b.path)
        root = p.split('::{closure')[0]
        pr = root in printers
        if pr:
            kinds.add((P.bodies[root].j.get('self_adt')) or '')
        sites = sum(1 for bl in b.blocks if not bl.get('cl') and bl['te']['t'] == 'call' and (
            'fmt::' in ((bl['te']['f'].get('fn') or {}).get('p') or '') or (bl['te']['f'].get('fn') or {}).get('name') == 'to_string'))
        if not pr and not sites:
            continue
        bad = T.leaks[p]
        ctx.ob('print.type' if pr else 'print.message', b.clean, not bad,
               ('the printed form of a value shows %s' if pr else 'a message is made from %s') % ', '.join(sorted({n for _, n in bad})), '%s:%s' % (b.loc[0], bad[0][0] if bad else b.loc[1]))
    held = sorted(x for x in S.holds if x in kinds)
    ctx.ob('anchor', 'printed types that hold secrets', len(held) >= 12, 'only %d types that hold secrets have a printed form to check' % len(held))


# ------------------------------------------------------------------ what nodes say about themselves
VP, VR = 'share::vss::pedersen::vss::', 'share::vss::rabin::vss::'
DKP, DKR = 'share::dkg::pedersen::', 'share::dkg::rabin::dkg::'
# operation -> the places of the receiver it gives out (in order, for those that give out several)
ACCESS = [
    (DKP + 'structs::DistKeyShare as DistKeyShare::commitments', ['commits']), (DKR + 'DistKeyShare as DistKeyShare::commitments', ['commits']),
    (DKP + 'structs::DistKeyShare as DistKeyShare::pri_share', ['share']), (DKR + 'DistKeyShare as DistKeyShare::pri_share', ['share']),
    (DKP + 'structs::DistKeyShare::public', [('commits', 0)]), (DKR + 'DistKeyShare::public', [('commits', 0)]),
    (DKP + 'dkg::DistKeyGenerator::verifiers', ['verifiers']),
    ('share::poly::PriPoly::coefficients', ['coeffs']), ('share::poly::PriPoly::secret', [('coeffs', 0)]), ('share::poly::PubPoly::commit', [('commits', 0)]),
    ('share::poly::PubPoly::info', ['b', 'commits']),
    (VP + 'Aggregator::responses', ['responses']),
    (VP + 'Dealer::commits', ['secret_commits']), (VP + 'Dealer::key', ['long', 'pubb']), (VP + 'Dealer::private_poly', ['secret_poly']), (VP + 'Dealer::session_id', ['session_id']),
    (VP + 'Verifier::index', ['index']), (VP + 'Verifier::key', ['longterm', 'pubb']), (VP + 'Verifier::session_id', ['aggregator.Some!.sid']),
    (VR + 'Dealer::key', ['long', 'pubb']), (VR + 'Dealer::session_id', ['session_id']),
    (VR + 'Verifier::index', ['index']), (VR + 'Verifier::key', ['longterm', 'pubb']), (VR + 'Verifier::session_id', ['aggregator.Some!.sid']),
]


def _halves(t, n, par):
    """value of an integer expression at n = 2k + par as (coefficient of k, constant), when every division is exact enough to know"""
    t = uncast_(t)
    if t is n:
        return 2, par
    if t.op == 'const' and isinstance(t.a[1], int):
        return 0, t.a[1]
    if t.op == 'call' and str(t.a[0]).split('::')[-1] in ('div_ceil', 'div', 'rem', 'add', 'sub') and len(t.a) == 3:
        a, b = _halves(t.a[1], n, par), _halves(t.a[2], n, par)
        nm = {'div_ceil': 'Ceil', 'div': 'Div', 'rem': 'Rem', 'add': 'Add', 'sub': 'Sub'}[str(t.a[0]).split('::')[-1]]
    elif t.op == 'bin':
        nm, a, b = t.a[0], _halves(t.a[1], n, par), _halves(t.a[2], n, par)
    else:
        return None
    if a is None or b is None:
        return None
    if nm in ('Add', 'AddUnchecked', 'AddWithOverflow'):
        return a[0] + b[0], a[1] + b[1]
    if nm in ('Sub', 'SubUnchecked', 'SubWithOverflow'):
        return a[0] - b[0], a[1] - b[1]
    if nm == 'Mul' and (a[0] == 0 or b[0] == 0):
        return (a[1] * b[0], a[1] * b[1]) if a[0] == 0 else (b[1] * a[0], b[1] * a[1])
    if nm == 'Shr' and b[0] == 0:
        nm, b = 'Div', (0, 1 << b[1])
    if nm == 'BitAnd' and b == (0, 1) or nm == 'BitAnd' and a == (0, 1):
        nm, a, b = 'Rem', a if b == (0, 1) else b, (0, 2)
    if b[0] == 0 and b[1] > 0 and a[0] % b[1] == 0:
        if nm == 'Div':
            return a[0] // b[1], a[1] // b[1]
        if nm == 'Ceil':
            return a[0] // b[1], -(-a[1] // b[1])
        if nm == 'Rem':
            return 0, a[1] % b[1]
    return None


def uncast_(t):
    while t.op == 'cast' and t.a[0] in ('usize', 'u64', 'u32', 'i64', 'u128', 'i128') or t.op == 'vf':
        t = t.a[1] if t.op == 'cast' else t.a[0]
    return t


def _place(S, path):
    if isinstance(path, tuple):
        return mk('index', _place(S, path[0]), mk('const', 'int', path[1]))
    for f in path.split('.'):
        S = mk('vf', S, 'Some', '0') if f == 'Some!' else mk('field', S, f)
    return S


def W03(ctx):
    for name, places in ACCESS:
        r = ctx.run(name)
        S = r.p(1)
        short = '::'.join(name.split('::')[-4:]) if ' as ' in name else '::'.join(name.split('::')[-3:])
        want = [r.cv(_place(S, p)) for p in places]
        n = 0
        for e in r.exits:
            for leaf, g in value_alts(e.ret, e.facts):
                n += 1
                v = r.cv(leaf)
                got = list(v.a) if len(want) > 1 and v.op == 'tuple' else [v]
                if len(want) > 1 and len(got) != len(want):
                    got = [r.cv(mk('field', leaf, str(i))) for i in range(len(want))]
                ctx.ob('accessor', short, len(got) == len(want) and all(a is b or str(a) == str(b) for a, b in zip(got, want)), 'it does not give out %s as held, but %s' % (', '.join(map(str, places)), str(v)[:120]))
        ctx.ob('accessor.exit', short, n >= 1, 'it never answers')
    S = mk('param', 1, 'self')
    # commitments of a Pedersen verifier: those of the deal it holds, and none without one
    name = VP + 'Verifier::commits'
    r = ctx.run(name)
    held = _place(r.p(1), 'aggregator.Some!.deal')
    n = 0
    for e in r.exits:
        for leaf, g in value_alts(e.ret, e.facts):
            v = r.cv(leaf)
            if v.op == 'adt' and v.a[1] == 'None':
                ok = any(not b and f.op == 'is' and f.a[1] == 'Some' and f.a[0] in (held, _place(r.p(1), 'aggregator')) for f, b in canon_facts(r.N, g))
                ctx.ob('accessor.none', 'Verifier::commits', ok, 'commitments are withheld although a deal is held')
            else:
                n += 1
                v = v.a[2][0][1] if v.op == 'adt' and v.a[1] == 'Some' else v
                ctx.ob('accessor', 'Verifier::commits', v is r.cv(_place(held, 'Some!.commitments')), 'it does not give out the commitments of the deal held')
    ctx.ob('accessor.exit', 'Verifier::commits', n >= 1, 'it never answers')
    for ty, f in (('PriPoly', 'coeffs'), ('PubPoly', 'commits')):
        r = ctx.run('share::poly::%s::threshold' % ty)
        for e in r.exits:
            ctx.ob('accessor', ty + '::threshold', e.cv() is r.cv(mk('call', 'len', mk('field', r.p(1), f))), 'the threshold is not the number of coefficients')
    r = ctx.run('share::poly::coefficients_to_pri_poly')
    for e in r.exits:
        ok = r.cv(mk('field', e.ret, 'g')) is r.p(1) and r.cv(mk('field', e.ret, 'coeffs')) is r.p(2)
        ctx.ob('poly.from', 'coefficients_to_pri_poly', ok, 'the polynomial does not have exactly the given coefficients and group')
    for m in (VP, VR):
        r = ctx.run(m + 'minimum_t')
        n = r.p(1)
        short = '::'.join(m.split('::')[-4:-3]) + '::minimum_t'
        for e in r.exits:
            got = [_halves(e.cv(), n, par) for par in (0, 1)]
            if None in got:
                # decided by cases on the parity
                got = [None, None]
                for leaf, g in value_alts(e.ret, e.facts):
                    par = _parity(canon_facts(r.N, g), n)
                    for p in ([par] if par is not None else [0, 1]):
                        h = _halves(r.cv(leaf), n, p)
                        got[p] = h if got[p] in (None, h) else 'two values'
            ctx.ob('minimum', short, got == [(1, 0), (1, 1)], 'the recommended threshold is not half the number of participants, rounded up')
    r0 = ctx.run(DKP + 'dkg::DistKeyGenerator::expected_deals')
    S = r0.p(1)
    ln = mk('call', 'len', mk('field', mk('field', S, 'c'), 'old_nodes'))
    for new in (True, False):
        for old in (True, False):
            asm = [(mk('field', S, 'new_present'), new), (mk('field', S, 'old_present'), old)]
            r = ctx.run(DKP + 'dkg::DistKeyGenerator::expected_deals', assume=asm)
            want = [r.cv(mk('bin', 'Sub', ln, mk('const', 'int', 1)))] if new and old else [r.cv(ln)] if new else [r.cv(mk('const', 'int', 0))]
            vals = [r.cv(leaf) for e in r.exits for leaf, g in value_alts(e.ret, e.facts) if not any((p, not b) in g for p, b in g)]
            known = {id(r.cv(t)): int(b) for t, b in asm}
            ok = bool(vals) and all(v in want or _lin(v, known) == _lin(want[0]) for v in vals)
            ctx.ob('expected', 'DistKeyGenerator::expected_deals', ok, 'the number of deals to expect is not that of the %sdealers for a node %s' % (
                'other ' if old else '', 'of both groups' if new and old else 'of the new group only' if new else 'that receives none'))
    for m, cls, sid, flag in ((VP, 'Verifier', 'aggregator.Some!.sid', 'status'), (VR, 'Aggregator', 'sid', 'approved')):
        nm = m + cls + '::unsafe_set_response_dkg'
        r = ctx.run(nm, opaque=frozenset([m + 'Aggregator::add_response']))
        S, i, a = r.p(1), r.p(2), r.p(3)
        evs = r.calls(m + 'Aggregator::add_response')
        ctx.ob('verdict', nm.split('::')[-4] + '::unsafe_set_response_dkg', len(evs) >= 1, 'no verdict is recorded')
        for ev in evs:
            x = ev.args[1]
            f = [r.cv(mk('field', x, k)) for k in ('session_id', 'index', flag)]
            ok = f[0] is r.cv(_place(S, sid)) and uncast_(f[1]) is i and f[2] is a
            ctx.ob('verdict', nm.split('::')[-4] + '::unsafe_set_response_dkg', ok, 'the verdict recorded is not the given one for the given verifier and the own session')


def _parity(cf, n):
    for f, v in cf:
        if f.op == 'eq' and any(x.op == 'bin' and x.a[0] == 'Rem' and uncast_(x.a[1]) is n and x.a[2].op == 'const' and x.a[2].a[1] == 2 for x in f.a):
            k = next((x.a[1] for x in f.a if x.op == 'const'), None)
            if k in (0, 1):
                return k if v else 1 - k
    return None


def _lin(v, known={}):
    """v as (term, constant added), with booleans known on the path counted as numbers"""
    v = uncast_(v)
    num = lambda x: x.a[1] if x.op == 'const' else known.get(id(x))
    if v.op == 'bin' and v.a[0] in ('Sub', 'Add', 'SubUnchecked', 'AddUnchecked'):
        a, b = uncast_(v.a[1]), uncast_(v.a[2])
        sub = v.a[0].startswith('Sub')
        if num(a) is not None and not sub:
            a, b = b, a
        if num(b) is not None:
            t, k = _lin(a, known)
            return t, k + (-num(b) if sub else num(b))
    if v.op == 'call' and v.a[0].endswith('saturating_sub'):
        b = num(uncast_(v.a[2]))
        if b is not None:
            t, k = _lin(v.a[1], known)
            return t, k - b
    return v, 0
