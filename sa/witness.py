# -*- coding: utf-8 -*-
"""Self-tests on in-memory variants of the current source: broken variants
must be reported, equivalent ones must not. A variant whose text no longer
occurs in the source is skipped.

A variant is (name, file, old, new) or (name, file, [(old, new), ...]), or
(name, [(file, old, new), ...])."""
import os
import sys

from .prog import Program, AnalysisError
from .ctx import Ctx


def overlay_of(ctx, v):
    if len(v) == 2:
        edits = v[1]
    elif len(v) == 3:
        edits = [(v[1], a, b) for a, b in v[2]]
    else:
        edits = [v[1:]]
    texts = {}
    for rel, old, new in edits:
        if rel not in texts:
            try:
                with open(os.path.join(ctx.prog.src, rel),
                          encoding='utf-8') as f:
                    texts[rel] = f.read()
            except OSError:
                return None
        if old not in texts[rel]:
            return None
        texts[rel] = texts[rel].replace(old, new, 1)
    return texts


def variant(ctx, mod, v):
    ov = overlay_of(ctx, v)
    if ov is None:
        return None
    c2 = Ctx(ctx.prop, 'quick', ctx.seed,
             prog=Program(ctx.prog.src, overlay=ov))
    try:
        mod.run(c2)
    except AnalysisError as e:
        raise AnalysisError('variant %s: %s' % (v[0], e))
    return c2.findings


def run_witnesses(ctx, mod):
    base = {f.key for f in ctx.findings}
    thorough = ctx.tier == 'thorough'
    ctx.not_applicable = miss = []
    if thorough:
        done = skipped = 0
        for v in getattr(mod, 'benign', ()):
            fs = variant(ctx, mod, v)
            if fs is None:
                skipped += 1
                miss.append(v[0])
                continue
            extra = [f for f in fs if f.key not in base]
            if extra:
                raise AnalysisError('equivalent variant %s reported: %s' % (
                    v[0], '; '.join(str(x) for x in extra[:4])))
            done += 1
        ctx.notes.append('specificity self-test: %d equivalent variants '
                         'quiet, %d not applicable' % (done, skipped))
    ws = list(getattr(mod, 'witnesses', ()))
    done = skipped = 0
    for v in ws:
        if done and not thorough:
            break
        try:
            fs = variant(ctx, mod, v)
        except AnalysisError:
            if thorough:
                raise
            fs = None
        if fs is None:
            skipped += 1
            miss.append(v[0])
            continue
        if not [f for f in fs if f.key not in base]:
            if not thorough:
                # on an edited tree the variant need not be a violation
                ctx.notes.append('sensitivity self-test: variant %s was not '
                                 'reported' % v[0])
                print('NOTE: self-test variant %s not reported' % v[0])
                continue
            raise AnalysisError('witness %s not reported' % v[0])
        done += 1
    ctx.notes.append('sensitivity self-test: %d broken variants reported, '
                     '%d not applicable to the current text' % (done, skipped))
