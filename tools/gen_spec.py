#!/usr/bin/env python3
"""Write spec/*.json from the current source. Run by hand only: its output is
reviewed against the HWP 5.0 format tables and committed; no check runs it."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from sa.prog import Program
from sa.layout import Layout
from sa.model import Model
from sa.registry import Registry, key_text
from sa import facts

p = Program()
L = Layout(p)
M = Model(p, L)
R = Registry(p, L)


def dump(name, obj):
    with open(os.path.join(HERE, 'spec', name), 'w') as f:
        json.dump(obj, f, indent=1, ensure_ascii=False, sort_keys=True)
        f.write('\n')


dump('layout.json', facts.layout_facts(M))
dump('types.json', facts.type_facts(M))
dump('tags.json', facts.tag_facts(p))
dump('registry.json', {t: {key_text(k): [c.name for c in v]
                           for k, v in d.items()}
                       for (m, t), d in R.tables.items()})
