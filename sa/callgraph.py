# -*- coding: utf-8 -*-
"""All flow graphs of the program and its call graph."""
from .terms import T, Term, subterms
from .prog import ClassInfo, FuncInfo
from .flow import Walker


def no_inline(f, w):
    return False


def all_graphs(prog):
    gs = prog.__dict__.get('_all_graphs')
    if gs is None:
        gs = prog._all_graphs = {}
        for f in prog.functions:
            w = Walker(prog, inline=no_inline)
            g = w.run(f)
            g.walker = w
            g.func = f
            gs[f] = g
    return gs


class CallGraph:
    """edges: resolved calls, generator creations, constructions, function
    values mentioned anywhere (they may be called by whoever gets them) and,
    for attribute calls on unknown objects, every method of that name"""

    def __init__(self, prog):
        self.prog = prog
        self.succ = {}
        self.pred = {}
        self.by_name = {}
        for f in prog.functions:
            if f.cls is not None:
                self.by_name.setdefault(f.name, set()).add(f)
        for f, g in all_graphs(prog).items():
            self.succ[f] = self.callees(f, g)
        for f, ts in self.succ.items():
            for t in ts:
                self.pred.setdefault(t, set()).add(f)

    def callees(self, f, g):
        out = set()
        for n in g.nodes:
            t = n.get('target')
            if isinstance(t, FuncInfo):
                out.add(t)
            if n.kind == 'new':
                self.ctor(n.cls, out)
            for v in n.d.values():
                for x in (v if isinstance(v, tuple) else (v,)):
                    if isinstance(x, tuple) and len(x) == 2:
                        x = x[1]
                    if not isinstance(x, Term):
                        continue
                    for s in subterms(x):
                        if s.op == 'func':
                            out.add(s.args[0])
                        elif s.op == 'bound':
                            out.add(s.args[1])
                        elif s.op == 'gencall':
                            out.add(s.args[0])
                        elif s.op == 'class' and isinstance(
                                s.args[0], ClassInfo):
                            self.ctor(s.args[0], out)
            if n.kind == 'call' and n.fn.op == 'attr' and t is None:
                out |= self.by_name.get(n.fn.args[1], set())
        # nested functions
        return {x for x in out if isinstance(x, FuncInfo)}

    def ctor(self, ci, out):
        for nm in ('__init__', '__new__'):
            m = self.prog.method(ci, nm)
            if m is not None:
                out.add(m)

    def closure(self, starts, stop=()):
        seen = set()
        st = list(starts)
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st.extend(self.succ.get(x, ()))
        return seen

    def callers(self, starts):
        seen = set()
        st = list(starts)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.pred.get(x, ()))
        return seen


def callgraph(prog):
    cg = prog.__dict__.get('_callgraph')
    if cg is None:
        cg = prog._callgraph = CallGraph(prog)
    return cg
