# -*- coding: utf-8 -*-
"""State that outlives a document: module variables, class members, default
arguments and function attributes, and the places in functions that change
them."""
import ast
from .mutation import METHODS
from .prog import iter_scope


class Site(object):
    """a change of shared state inside a function"""

    def __init__(self, func, node, kind, owner, name, how):
        self.func, self.node, self.kind = func, node, kind
        self.owner, self.name, self.how = owner, name, how

    @property
    def loc(self):
        return '%s:%d' % (getattr(self.func.module, 'relpath',
                                  self.func.module.name), self.node.lineno)

    def __repr__(self):
        return '%s %s.%s %s in %s' % (self.kind, self.owner, self.name,
                                      self.how, self.func.fullname)


def locals_of(f):
    return set(f.local_names)


def owner_scope(f, name):
    """('local', function) | ('global', module) of a name seen from f"""
    h = f
    while h is not None:
        if name in (getattr(h, '_globals', None) or ()):
            return 'global', f.module
        if name in h.local_names or name in h.params:
            return 'local', h
        h = h.parent
    return 'global', f.module


def base_name(e):
    """(root expression, path of attributes/subscripts)"""
    path = []
    while True:
        if isinstance(e, ast.Attribute):
            path.append('.' + e.attr)
            e = e.value
        elif isinstance(e, ast.Subscript):
            path.append('[]')
            e = e.value
        else:
            return e, path[::-1]


def part_of(e):
    """the expression the value is, or is a part of; None if it is new"""
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr in ('get', 'setdefault', 'items', 'values',
                            '__getitem__'):
        e = ast.Subscript(e.func.value, ast.Constant(0), ast.Load())
    if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
        return e
    return None


def class_members(prog, ci):
    """names bound in the class body to something other than functions"""
    out = {}
    for c in prog.mro(ci):
        if not hasattr(c, 'members'):
            continue
        for nm, bs in c.members.items():
            out.setdefault(nm, (c, bs))
    return out


def mutable_expr(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.DictComp, ast.SetComp)) or \
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict',
                      'bytearray', 'deque', 'Counter')


def instance_attrs(prog, ci):
    """attributes some method of the class (or a base) binds on self"""
    out = set()
    for c in prog.mro(ci):
        if not hasattr(c, 'members'):
            continue
        for f in prog.functions:
            if f.cls is c and f.params:
                s = f.params[0]
                for x in ast.walk(f.node):
                    if isinstance(x, ast.Attribute) and \
                            isinstance(x.ctx, ast.Store) and \
                            isinstance(x.value, ast.Name) and \
                            x.value.id == s:
                        out.add(x.attr)
    return out


def sites(prog, funcs=None):
    out = []
    inst_cache = {}
    for f in (funcs if funcs is not None else prog.functions):
        body = getattr(f.node, 'body', None)
        if not isinstance(body, list):
            continue
        glob = set()
        alias = {}
        for x in iter_scope(f.node):
            if isinstance(x, ast.Global):
                glob.update(x.names)
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Name):
                alias.setdefault(x.targets[0].id, []).append(
                    part_of(x.value))
            elif isinstance(x, (ast.For, ast.comprehension)):
                v = part_of(x.iter)
                for t in ast.walk(x.target):
                    if isinstance(t, ast.Name):
                        alias.setdefault(t.id, []).append(
                            v if v is None else ast.Subscript(
                                v, ast.Constant(0), ast.Load()))
        defaults = default_names(f)

        def note(x, e, how, store=False):
            """e is the expression whose object changes"""
            r, path = base_name(e)
            n = 0
            while isinstance(r, ast.Name) and r.id in alias and \
                    len(alias[r.id]) == 1 and n < 4 and \
                    alias[r.id][0] is not None and \
                    owner_scope(f, r.id)[0] == 'local' and \
                    r.id not in f.params:
                r2, p2 = base_name(alias[r.id][0])
                if isinstance(r2, ast.Name) and r2.id == r.id:
                    break
                r, path = r2, p2 + path
                n += 1
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) \
                    and r.func.id == 'globals':
                out.append(Site(f, x, 'module', f.module.name, '*', how))
                return
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) \
                    and r.func.id in ('type', 'super') or \
                    isinstance(r, ast.Attribute):
                return
            if not isinstance(r, ast.Name):
                return
            scope, where = owner_scope(f, r.id)
            if r.id in glob:
                scope, where = 'global', f.module
            if scope == 'local':
                if r.id in defaults and r.id in f.params and \
                        where is f and not rebound(f, r.id):
                    out.append(Site(f, x, 'default', f.fullname, r.id, how))
                    return
                first = path[0] if path else ''
                if where.cls is not None and where.params and \
                        r.id == where.params[0] and \
                        first.startswith('.'):
                    nm = first[1:]
                    meta = r.id in ('cls', 'mcs', 'metacls') or \
                        is_classmethod(where)
                    if meta:
                        out.append(Site(f, x, 'class', where.cls.name, nm,
                                        how))
                        return
                    if len(path) == 1 and store:
                        return          # self.x = ...
                    mem = class_members(prog, where.cls).get(nm)
                    if mem is not None:
                        k = where.cls
                        if k not in inst_cache:
                            inst_cache[k] = instance_attrs(prog, k)
                        if nm not in inst_cache[k] and any(
                                mutable_expr(getattr(b, 'value', None))
                                for b in mem[1]):
                            out.append(Site(f, x, 'class', mem[0].name, nm,
                                            how))
                return
            # a module variable, or an attribute of a module or class
            ents = prog.resolve_expr(f.module, r, f)
            for e0 in ents or [('var', None)]:
                if e0[0] == 'module':
                    if path and path[0].startswith('.'):
                        out.append(Site(f, x, 'module', e0[1], path[0][1:],
                                        how))
                elif e0[0] == 'class':
                    if path and path[0].startswith('.'):
                        out.append(Site(f, x, 'class', e0[1].name,
                                        path[0][1:], how))
                elif e0[0] == 'func':
                    if path and path[0].startswith('.'):
                        out.append(Site(f, x, 'function', e0[1].fullname,
                                        path[0][1:], how))
                elif e0[0] == 'ext':
                    if path and store and path[0].startswith('.'):
                        out.append(Site(f, x, 'ext', e0[1], path[0][1:],
                                        how))
                else:
                    out.append(Site(f, x, 'module', f.module.name, r.id,
                                    how))
                break

        for x in iter_scope(f.node):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and \
                        x.func.attr in METHODS - {'write'}:
                    note(x, x.func.value, x.func.attr)
                elif isinstance(x.func, ast.Name) and x.func.id in (
                        'setattr', 'delattr') and len(x.args) > 1:
                    a = ast.Attribute(x.args[0], x.args[1].value if
                                      isinstance(x.args[1], ast.Constant)
                                      else '*', ast.Store())
                    note(x, a, 'setattr', True)
            elif isinstance(x, ast.Subscript) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                note(x, x.value, 'item')
            elif isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, (ast.Store, ast.Del)):
                note(x, x, 'attribute', True)
            elif isinstance(x, ast.Name) and isinstance(
                    x.ctx, (ast.Store, ast.Del)) and x.id in glob:
                out.append(Site(f, x, 'module', f.module.name, x.id,
                                'rebinding'))
            elif isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Name) and x.target.id in defaults and \
                    not rebound(f, x.target.id, aug=True):
                out.append(Site(f, x, 'default', f.fullname, x.target.id,
                                'augmented'))
    return out


def is_classmethod(f):
    return any(isinstance(d, ast.Name) and d.id == 'classmethod'
               for d in f.node.decorator_list)


def default_names(f):
    a = getattr(f.node, 'args', None)
    if a is None:
        return set()
    out = set()
    ps = a.posonlyargs + a.args
    for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        if mutable_expr(d):
            out.add(p.arg)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None and mutable_expr(d):
            out.add(p.arg)
    return out


def rebound(f, name, aug=False):
    for x in iter_scope(f.node):
        if isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name
                for t in x.targets):
            return True
    return False
