# -*- coding: utf-8 -*-
"""Containers whose contents change behind a local name: parameters that
functions mutate, and attributes that are mutated in place."""
import ast

METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
           'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem',
           'appendleft', 'popleft', 'extendleft', 'write', '__setitem__',
           '__delitem__'}


def direct(body):
    """names and attribute names that statements mutate in place"""
    names, attrs = set(), set()

    def note(e):
        if isinstance(e, ast.Name):
            names.add(e.id)
        elif isinstance(e, ast.Attribute):
            attrs.add(e.attr)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute) and \
                    n.func.attr in METHODS:
                note(n.func.value)
            elif isinstance(n, ast.Subscript) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                note(n.value)
            elif isinstance(n, ast.AugAssign):
                note(n.target)
    return names, attrs


class Mutation:
    def __init__(self, prog):
        self.attrs = set()
        self.params = {}     # function name -> parameter names/positions
        infos = []
        for f in prog.functions:
            node = f.node
            body = getattr(node, 'body', None)
            if not isinstance(body, list):
                continue
            names, attrs = direct(body)
            self.attrs |= attrs
            a = node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if f.cls is not None and ps and ps[0] in ('self', 'cls'):
                ps = ps[1:]
            infos.append((f, ps, names, body))
            for i, p in enumerate(ps):
                if p in names:
                    self.params.setdefault(f.name, set()).update((i, p))
        for _ in range(20):
            n = sum(len(v) for v in self.params.values())
            for f, ps, names, body in infos:
                more = self.passed(body) & set(ps)
                for i, p in enumerate(ps):
                    if p in more:
                        self.params.setdefault(f.name, set()).update((i, p))
            if n == sum(len(v) for v in self.params.values()):
                break
        for m in prog.modules.values():
            self.attrs |= direct(m.tree.body)[1]

    def passed(self, body):
        """names passed to functions that mutate them"""
        out = set()
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Call):
                    continue
                fn = n.func
                nm = fn.id if isinstance(fn, ast.Name) else \
                    fn.attr if isinstance(fn, ast.Attribute) else None
                mut = self.params.get(nm)
                if not mut:
                    continue
                for i, a in enumerate(n.args):
                    if isinstance(a, ast.Name) and i in mut:
                        out.add(a.id)
                for k in n.keywords:
                    if isinstance(k.value, ast.Name) and k.arg in mut:
                        out.add(k.value.id)
        return out

    def hidden(self, func):
        """local names whose containers change out of sight: by functions
        they are passed to or by nested functions"""
        node = func.node
        cache = node.__dict__.get('_hidden_mutation')
        if cache is not None:
            return cache
        body = node.body if isinstance(node.body, list) else []
        out = self.passed(body)
        for s in body:
            for n in ast.walk(s):
                if n is not s and isinstance(n, ast.FunctionDef) or \
                        isinstance(n, ast.FunctionDef):
                    a = n.args
                    own = {x.arg for x in a.posonlyargs + a.args +
                           a.kwonlyargs}
                    stored = {x.id for b in n.body for x in ast.walk(b)
                              if isinstance(x, ast.Name) and
                              isinstance(x.ctx, ast.Store)}
                    out |= direct(n.body)[0] - own - stored
        # aliases of a container
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and \
                        isinstance(n.value, ast.Name):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m = direct(body)[0]
                            if t.id in m or n.value.id in m:
                                out |= {t.id, n.value.id}
        node.__dict__['_hidden_mutation'] = out
        return out


def of(prog):
    m = prog.__dict__.get('_mutation')
    if m is None:
        m = prog.__dict__['_mutation'] = Mutation(prog)
    return m
