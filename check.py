#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Statically decides one property on /repo's current source. Exit 0: holds;
exit 1 with VIOLATION lines: broken; exit 2: the analysis could not be done.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from sa.ctx import Ctx, load_known
    from sa.prog import AnalysisError
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + a.property)
    try:
        ctx = Ctx(a.property, a.tier, seed)
        mod.run(ctx)
        known = load_known(a.property)
        new = [f for f in ctx.findings if f.key not in known]
        if not new:
            # an analysis that matched too little is broken, not a pass; a
            # quick run may leave some of its rules undecided on an edited
            # tree, if most of them were decided
            asked = [r for r, (t, m) in ctx.rules.items() if m]
            short = [r for r in asked
                     if len(ctx.instances.get(r, ())) < ctx.rules[r][1]]
            if short and (a.tier != 'quick' or 2 * len(short) >= len(asked)
                          or not any(ctx.instances.values())):
                raise AnalysisError('; '.join(
                    'rule %s matched %d instances, expected at least %d' % (
                        r, len(ctx.instances.get(r, ())), ctx.rules[r][1])
                    for r in short))
            for r in short:
                ctx.notes.append('undecided: rule %s matched %d instances, '
                                 'expected at least %d' % (
                                     r, len(ctx.instances.get(r, ())),
                                     ctx.rules[r][1]))
                print('NOTE: rule %s is undecided here' % r)
            if hasattr(mod, 'witnesses') or hasattr(mod, 'benign'):
                from sa.witness import run_witnesses
                run_witnesses(ctx, mod)
                if a.v and ctx.not_applicable:
                    print("not applicable: %s" % ctx.not_applicable)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.property)
        return 2
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    total = sum(len(v) for v in ctx.instances.values())
    bad = len(ctx.findings)
    cov = {
        'explanation': getattr(mod, 'EXPLANATION', '') or
        'static analysis of the current source',
        'modules_analysed': len(ctx.prog.modules),
        'functions_in_scope': len(ctx.prog.functions),
        'rules': {r: {'rule': t, 'instances': len(ctx.instances.get(r, ())),
                      'samples': [str(x)[:160] for x in
                                  ctx.instances.get(r, [])[:6]]}
                  for r, (t, m) in ctx.rules.items()},
        'obligations': total,
        'discharged': total - bad,
        'source_digest': ctx.prog.digest,
    }
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': a.property, 'tier': a.tier, 'seed': seed,
          'level': 'other', 'coverage': cov,
          'assumptions': ctx.assumptions, 'violations': len(new),
          'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(evdir, a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for f in ctx.findings:
        if f.key in known:
            print('KNOWN-FINDING: property=%s %s' % (a.property, f))
    for r, (t, m) in ctx.rules.items():
        print('%s %s: %d instances' % (a.property, r,
                                       len(ctx.instances.get(r, ()))))
        if a.v:
            for x in ctx.instances.get(r, ()):
                print('     ', x)
    if new:
        rp = os.path.join(evdir, a.property + '.violations.txt')
        with open(rp, 'w') as f:
            for x in new:
                f.write(str(x) + '\n')
        for x in new:
            print(str(x))
        print('VIOLATION property=%s replay=%s' % (
            a.property, os.path.relpath(rp, HERE)))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
