#!/usr/bin/env python3
"""check.py ID: decide property ID from the MIR facts of /repo's current working tree.

exit 0: every obligation of the property was discharged (known findings are printed)
exit 1: VIOLATION property=ID replay=PATH, with each construct that breaks a rule
"""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'engine', 'rules'), V]
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = os.environ.get('KY_WORK') or os.path.join(V, 'work')
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    facts = os.path.join(work, 'facts.%s.%d.json' % (prop, os.getpid()))
    if '--facts' in sys.argv:
        facts = sys.argv[sys.argv.index('--facts') + 1]
    else:
        r = subprocess.run([os.path.join(V, 'extract.sh'), facts] + (['fresh'] if tier == 'thorough' else []))
        if r.returncode:
            print('fact extraction failed (%d)' % r.returncode)
            return 2
    import lib
    from program import Program
    from registry import PROPS
    meta = PROPS[prop]
    mod = importlib.import_module('rules.' + meta['module'])

    def decide(facts):
        ctx = lib.Ctx(Program(facts), prop, tier)
        try:
            getattr(mod, prop)(ctx)
        except lib.Missing:
            pass
        except Exception as e:
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            ctx.bad('engine', 'analysis', 'the analysis could not follow this code: %r' % e, tb.strip().splitlines()[-3].strip() if tb else '')
        return ctx
    try:
        ctx = decide(facts)
        P = ctx.P
        if tier == 'thorough' and '--facts' not in sys.argv:
            # the same obligations on the code as a release build has it
            r = subprocess.run([os.path.join(V, 'extract.sh'), facts, 'release'])
            if r.returncode:
                print('fact extraction failed (%d)' % r.returncode)
                return 2
            rel = decide(facts)
            ctx.viol += [dict(v, where=(v['where'] + ' (release build)').strip()) for v in rel.viol
                         if (v['rule'], v['construct']) not in {(x['rule'], x['construct']) for x in ctx.viol}]
            ctx.cov = dict(getattr(ctx, 'cov', {}), release_build_obligations=len(rel.obl), release_build_discharged=sum(1 for o in rel.obl if o[2]))
    finally:
        if '--facts' not in sys.argv and os.path.exists(facts):
            os.unlink(facts)
    # floor: a rule that matches nothing is vacuous
    floor = meta.get('floor', 1)
    ninst = len({(r, c) for r, c, ok in ctx.obl})
    if ninst < floor and not ctx.viol:
        ctx.bad('floor', prop, 'only %d rule instances were generated, at least %d are expected: the rule lost its subjects' % (ninst, floor))
    known = {}
    kf = os.path.join(V, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                key, _, what = line[len('known: property=%s ' % prop):].partition(' -- ')
                known[key] = what
    new, seen = [], {}
    for v in ctx.viol:
        k = '%s|%s' % (v['rule'], v['construct'])
        if k in known:
            seen[k] = v
        elif (k, v['msg'], v['where']) not in [(x['key'], x['msg'], x['where']) for x in new]:
            new.append(dict(v, key=k))
    for k in seen:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    distinct = sorted({(r, c) for r, c, ok in ctx.obl})
    cov = {
        'explanation': meta['rule'],
        'obligations': len(ctx.obl),
        'discharged': sum(1 for o in ctx.obl if o[2]),
        'distinct_rule_instances': len(distinct),
        'functions_analysed': len(ctx.fns),
        'entry_points': sorted({k[0] for k in ctx._runs}),
        'exit_states_analysed': sum(len(r.exits) for r in ctx._runs.values()),
        'call_sites_evaluated': sum(len(r.events) for r in ctx._runs.values()),
        'program_bodies': len(P.bodies),
        'samples': [{'rule': r, 'construct': c} for r, c in distinct[:40]],
        'known_findings': sorted(seen),
    }
    cov.update(getattr(ctx, 'cov', {}))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'other'), 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + BASE_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('property %s (%s): %d obligations over %d functions, %d rule instances, %.1fs' % (prop, tier, len(ctx.obl), len(ctx.fns), len(distinct), time.time() - t0))
    if new:
        rp = os.path.join(V, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as fh:
            for v in new:
                fh.write('%s\n  rule %s at %s\n  %s\n' % (v['msg'], v['rule'], v['construct'], v['where']))
        for v in new:
            print('  rule %s, %s: %s %s' % (v['rule'], v['construct'], v['msg'], v['where']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


BASE_ASSUMPTIONS = [
    'rustc nightly MIR of the library crate (check profile) is what the build compiles',
    'the models of std, subtle, sha2, aes-gcm, hkdf, bincode and serde calls in engine/models.py describe those libraries',
]

if __name__ == '__main__':
    sys.exit(main())
