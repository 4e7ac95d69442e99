# -*- coding: utf-8 -*-
"""Check context: findings, instance accounting, evidence, known findings."""
import json
import os
import time

from .prog import Program, AnalysisError, REPO
from .flow import Walker, dominators, facts_at, reachable, dom_chain
from .terms import show, canon

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, message, loc=None):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.loc = loc

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def __str__(self):
        return '[%s] %s: %s%s' % (self.rule, self.construct, self.message,
                                  ' (%s)' % self.loc if self.loc else '')


class Ctx:
    def __init__(self, prop, tier='quick', seed=1, prog=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.prog = prog or Program()
        self.findings = []
        self.instances = {}      # rule -> list of descriptions
        self.rules = {}          # rule -> text
        self.assumptions = []
        self.notes = []
        self._layout = None
        self.t0 = time.time()

    # -- reporting
    def rule(self, name, text, minimum=0):
        self.rules[name] = (text, minimum)
        self.instances.setdefault(name, [])

    def ok(self, rule, what):
        self.instances.setdefault(rule, []).append(what)

    def bad(self, rule, construct, message, loc=None):
        self.instances.setdefault(rule, []).append('VIOLATED ' + construct)
        f = Finding(rule, construct, message, loc)
        if f.key not in {x.key for x in self.findings}:
            self.findings.append(f)

    def check(self, cond, rule, construct, message, loc=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, message, loc)
        return cond

    def broken(self, msg):
        raise AnalysisError(msg)

    def need_func(self, mod, name):
        f = self.prog.find_func(mod, name)
        if f is None:
            raise AnalysisError('anchor not found: %s.%s' % (mod, name))
        return f

    def need_class(self, mod, name):
        c = self.prog.cls(mod, name)
        if c is None:
            raise AnalysisError('anchor not found: %s.%s' % (mod, name))
        return c

    # -- analyses
    @property
    def layout(self):
        if self._layout is None:
            from .layout import Layout
            self._layout = Layout(self.prog)
        return self._layout

    def graph(self, fi, inline=None, self_cls=None, args=None, **kw):
        w = Walker(self.prog, inline=inline, **kw)
        g = w.run(fi, self_cls=self_cls, args=args)
        g.walker = w
        g.func = fi
        return g

    @property
    def graphs(self):
        from .callgraph import all_graphs
        return all_graphs(self.prog)

    @property
    def cg(self):
        from .callgraph import callgraph
        return callgraph(self.prog)

    def query(self, text, inline=None, args=None, self_cls=None, **kw):
        """flow graph of the (single) function defined by `text`, composed of
        definitions of the program"""
        m = self.prog.snippet(text)
        fi = [b[0].value for b in m.bindings.values()
              if b[0].kind == 'func'][0]
        return self.graph(fi, inline=inline or (lambda f, w: True),
                          args=args, self_cls=self_cls, **kw)

    def where(self, n):
        return '%s in %s' % (n.loc, n.func.fullname if n.func else '?')


def inline_all_except(*skip):
    sk = set(skip)

    def p(f, w):
        return f not in sk and f.name not in sk
    return p


def inline_none(f, w):
    return False


def load_known(prop):
    """known findings of one property: key -> description; fixed entries are
    informational only"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path, encoding='utf-8'):
        line = line.strip()
        if not line or line.startswith('#') or line.startswith('fixed:'):
            continue
        if line.startswith('property=%s ' % prop):
            rest = line.split(' ', 1)[1]
            key, _, desc = rest.partition(' :: ')
            assert key.startswith('key=')
            out[key[4:]] = desc
    return out
