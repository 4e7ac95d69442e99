# -*- coding: utf-8 -*-
"""Facts extracted from the source in the form in which spec/ holds them."""
import json
import os

from .prog import ClassInfo
from .terms import T, is_const, cval, show

SPEC = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'spec')


def spec(name):
    with open(os.path.join(SPEC, name), encoding='utf-8') as f:
        return json.load(f)


def jsonable(x):
    return json.loads(json.dumps(x))


def layout_facts(M):
    out = {}
    for c in M.classes:
        if c.name in ('Struct', 'RecordModel', 'HwpDoc'):
            continue
        out[c.name] = {'members': jsonable(M.wire(c)),
                       'record': M.is_record(c)}
    return out


def type_facts(M):
    """wire facts of the named value types"""
    out = {}
    used = set()

    def walk(t):
        if isinstance(t, str):
            k, _, n = t.partition(' ')
            if k in ('type', 'class'):
                used.add(n)
        elif isinstance(t, dict):
            for k, v in t.items():
                if k == 'members':
                    for m in v:
                        walk(m['type'])
                elif k == 'cases' and isinstance(v, dict):
                    for b in v.values():
                        walk(b)
                elif k in ('array', 'narray', 'xarray', 'count', 'flags'):
                    walk(v)
    for c in M.classes:
        for m in M.wire(c):
            walk(m['type'])
    for c in M.prog.classes:
        if c.name in used:
            out[c.name] = jsonable(M.prim(c))
    return out


def tag_facts(prog):
    """name -> number of every HWPTAG_ name of hwp5.tagids"""
    m = prog.modules['hwp5.tagids']
    out = {}
    for k, t in prog.dynamic_names(m).items():
        out[k] = cval(t)
    from .flow import Walker, Frame
    w = Walker(prog, unroll=2000)
    for nm in m.bindings:
        if nm.startswith('HWPTAG'):
            t = w.load_global(m, nm)
            if is_const(t):
                out[nm] = cval(t)
    return out


def tagnames(prog):
    """number -> name as the table of hwp5.tagids gives it"""
    from .flow import Walker
    m = prog.modules['hwp5.tagids']
    t = Walker(prog, unroll=2000).load_global(m, 'tagnames')
    while t.op in ('gval',):
        t = t.args[-1]
    if t.op != 'dict':
        return None
    return [(cval(k), cval(v)) for k, v in t.args]
