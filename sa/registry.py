# -*- coding: utf-8 -*-
"""Which classes end up under which key in the model registries.

The registration code is the metaclass chain: every `__new__` / `__init__`
of a metaclass that stores the new class in a module-level dict. Its flow
graph is built once per class with the class's own attributes as constants,
so the guard is folded and the key is evaluated for that class."""
import ast

from .prog import ClassInfo
from .flow import Walker, reachable
from .terms import T, const, is_const, cval, show, NONE


def unwrap(t):
    while t.op in ('gval', 'cval') and len(t.args) >= 3:
        t = t.args[-1]
    return t


class Registry:
    def __init__(self, prog, layout):
        self.prog = prog
        self.layout = layout
        self.tables = {}        # (module, dict name) -> {key: [class]}
        self.where = {}         # (module, dict name) -> FuncInfo
        self.undecided = []
        for ci in prog.classes:
            m = prog.metaclass(ci)
            if m is None:
                continue
            for mm in prog.mro(m):
                if not isinstance(mm, ClassInfo):
                    continue
                for nm in ('__new__', '__init__'):
                    for b in mm.members.get(nm, ()):
                        if b.kind == 'func':
                            self.one(ci, b.value)

    def one(self, ci, fn):
        key = ('mayregister', fn)
        memo = self.__dict__.setdefault('_memo', {})
        if key not in memo:
            g = Walker(self.prog, inline=lambda f, w: f.module.name.startswith(
                'hwp5.binmodel') or f is fn).run(fn)
            memo[key] = any(self.table(n) for n in g.nodes
                            if n.kind in ('setitem', 'call'))
        if not memo[key]:
            return
        ps = fn.params
        attrs = ps[3] if len(ps) >= 4 else None
        if attrs is None:
            return
        ad = []
        for name in ci.members:
            t = self.layout.class_const(ci, name)
            ad.append((const(name), unwrap(t) if t is not None
                       else T('sym', name)))
        args = {attrs: T('dict', *ad), ps[0]: T('sym', ps[0])}
        w = Walker(self.prog, inline=lambda f, w: f.module.name.startswith(
            'hwp5.binmodel') and f.name != '__new__')
        g = w.run(fn, args=args)
        live = reachable(g, [g.entry])
        for n in g.nodes:
            t = self.table(n)
            if t is None or n.id not in live:
                continue
            k = n.key if n.kind == 'setitem' else n.args[0]
            # a guard that is not folded: conditional registration
            self.tables.setdefault(t, {}).setdefault(self.norm(k), [])
            if ci not in self.tables[t][self.norm(k)]:
                self.tables[t][self.norm(k)].append(ci)
            self.where[t] = fn

    def norm(self, k):
        k = unwrap(k)
        if k.op == 'tuple':
            return tuple(self.norm(x) for x in k.args)
        if k.op == 'class':
            return k.args[0]
        if is_const(k):
            return k.args[0]
        return show(k)

    def table(self, n):
        """(module, name) of the module-level dict a node stores into"""
        o = None
        if n.kind == 'setitem':
            o = n.obj
        elif n.kind == 'call' and n.fn.op == 'attr' and \
                n.fn.args[1] == 'setdefault':
            o = n.fn.args[0]
        if o is not None and o.op in ('gval', 'global'):
            return o.args[0], o.args[1]
        return None

    def of_base(self, name):
        for (m, t), d in self.tables.items():
            if t == name:
                return d
        return {}


def key_text(k):
    if isinstance(k, tuple):
        return '(%s)' % ', '.join(key_text(x) for x in k)
    if isinstance(k, ClassInfo):
        return k.name
    return repr(k)
