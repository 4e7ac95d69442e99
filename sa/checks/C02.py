# -*- coding: utf-8 -*-
"""C02 Alternative backends are interchangeable."""
import ast

from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import value, walk
from ..flow import dominators, facts_at, reachable
from ..paths import try_refine
from ..prog import FuncInfo, ClassInfo, iter_scope
from .. import affine
from ._util import short, fn_args, is_none, norm_facts, term_values
from .C04 import STD, OWN

TECHNIQUE = ('case-by-case evaluation of the selection functions under each '
             'set of usable backends, comparison of signatures, outcomes and '
             'protocol (typestate) of the implementations of one service')
LEVEL_NOTE = ('what the foreign libraries and programs do is not looked '
              'into; conditions other than tests for backends are not '
              'decided.')
EXPLANATION = '''The modules under hwp5.plat that define an operation of a service are
its backends. The branches of each selection function are resolved with all
backends but one switched off: every return that remains reachable has to give
that one. Implementations of one operation are compared in the arguments they
accept, in their kind of result and in how they report failures. External
programs have failed when their return code is not zero; a validating output
passes nothing on that has not been validated.'''

SERVICES = {
    # selection function: operations that make a backend usable
    'get_xslt': ('xslt',),
    'get_xslt_compile': ('xslt_compile', 'xslt'),
    'get_relaxng': ('relaxng',),
    'get_relaxng_compile': ('relaxng_compile',),
    'get_olestorage_class': ('OleStorage',),
}
# operations: number of positional arguments they get
OPS = {'xslt': 3, 'xslt_compile': 1, 'relaxng': 2, 'relaxng_compile': 1}
METHODS = {
    'XSLT': {'__init__': 1, 'transform': 2, 'transform_into_stream': 2},
    'RelaxNG': {'__init__': 1, 'validating_output': 1, 'validate': 1,
                'validate_stream': 1},
    'OleStorage': {'__init__': 1, '__iter__': 0, '__getitem__': 1,
                   'close': 0},
}
FILE = {'read': (0, 1), 'seek': (1, 2), 'tell': (0,), 'close': (0,)}


def run(ctx):
    ctx.rule('C02.select', 'a selection function returns the backend that is '
             'usable', 8)
    ctx.rule('C02.attempts', 'the failure of one AES backend leads to the '
             'next', 2)
    ctx.rule('C02.signatures', 'implementations of one operation accept the '
             'same arguments', 15)
    ctx.rule('C02.outcomes', 'implementations of one operation return the '
             'same kind of result', 4)
    ctx.rule('C02.failures', 'failures are reported alike', 4)
    ctx.rule('C02.parameters', 'parameters of stylesheets reach the '
             'processor as strings', 2)
    ctx.rule('C02.validated', 'nothing is passed on that is not valid', 2)
    ctx.rule('C02.optional', 'optional packages are only imported where '
             'their absence is handled', 5)
    ctx.rule('C02.live', 'settings of backends are read when they are used',
             2)
    ctx.rule('C02.configured', 'settings of the environment take effect '
             'before backends are selected', 3)
    ctx.rule('C02.files', 'streams of all backends seek and read alike', 3)
    p = Plat(ctx)
    p.select()
    p.attempts()
    p.signatures()
    p.outcomes()
    p.programs()
    p.storages()
    p.parameters()
    p.validated()
    p.optional()
    p.live()
    p.configured()
    p.files()


def is_foreign(dotted):
    return dotted.lstrip('.').split('.')[0] not in STD | OWN


class Plat:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.plat = ctx.prog.modules.get('hwp5.plat')
        if self.plat is None:
            ctx.broken('hwp5.plat not found')
        self.mods = [m for n, m in sorted(ctx.prog.modules.items())
                     if n.startswith('hwp5.plat.') and
                     n.count('.') == 2]

    def own(self, m, name):
        """definition of `name` at the top of m"""
        for b in m.bindings.get(name, ()):
            if b.kind in ('func', 'class'):
                return b.value
        for b in m.bindings.get(name, ()):
            # alias of a definition
            if b.kind == 'expr' and isinstance(b.value, ast.AST):
                for r in self.prog.resolve_expr(m, b.value, None) or ():
                    if r[0] in ('func', 'class'):
                        return r[1]
        return None

    def backends(self, *names):
        return [m for m in self.mods
                if self.own(m, 'is_enabled') is not None and
                any(self.own(m, n) is not None for n in names)]

    def inside(self, f, skip=()):
        """functions that are part of a selection: not of backends"""
        ctx = self.ctx

        def inline(h, w=None):
            return h.module is self.plat and h not in skip
        try:
            return try_refine(ctx.graph(f, inline=inline))
        except RecursionError:
            return ctx.graphs[f]

    # -- selection
    def select(self):
        ctx = self.ctx
        for svc, names in SERVICES.items():
            f = self.own(self.plat, svc)
            if f is None:
                continue
            g = self.inside(f)
            for m in self.backends(*names):
                ev = self.only(m)
                ids = walk(g, [0], ev)
                offered = [self.own(m, n) for n in names
                           if self.own(m, n) is not None]
                bad = None
                seen = False
                for n in g.nodes:
                    if n.kind != 'exit-return' or n.id not in ids:
                        continue
                    for v in self.leaves(n.value, ev):
                        w = self.what(v)
                        if is_none(v):
                            bad = 'returns nothing'
                        elif w and not w & set(offered):
                            bad = 'returns %s' % short(v, 60)
                        elif w:
                            seen = True
                            if len(names) > 1 and offered[0] not in w and \
                                    offered[0].name == names[0]:
                                bad = 'passes by %s.%s' % (
                                    m.name, names[0])
                what = '%s: %s' % (svc, m.name)
                if bad:
                    ctx.bad('C02.select', what, 'when only %s is usable, %s '
                            '%s' % (m.name, svc, bad), g.nodes[0].loc)
                elif seen:
                    ctx.ok('C02.select', what)
                # when no backend is usable, there is none to return
            ev = self.only(None)
            ids = walk(g, [0], ev)
            for n in g.nodes:
                if n.kind != 'exit-return' or n.id not in ids:
                    continue
                for v in self.leaves(n.value, ev):
                    if self.what(v):
                        ctx.bad('C02.select', '%s: none' % svc,
                                'returns %s when no backend is usable' %
                                short(v, 60), n.loc)
                    elif is_none(v):
                        ctx.ok('C02.select', '%s: none' % svc)

    def only(self, m):
        """valuation of conditions when only backend m is usable"""
        enabled = {}
        for x in self.mods:
            e = self.own(x, 'is_enabled')
            if e is not None:
                enabled[e] = x is m

        def ev(c):
            if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!=') \
                    and is_none(c.args[2]):
                r = self.attribute(c.args[1])
                if r is not None:
                    none = r is False
                    return none == (c.args[0] in ('is', '=='))
                if c.args[1].op in ('func', 'class'):
                    return c.args[0] in ('is not', '!=')
                return None
            if c.op in ('func', 'class'):
                return True
            fn, args = fn_args(c)
            if fn is None:
                return None
            if fn.op == 'func' and fn.args[0] in enabled:
                return enabled[fn.args[0]]
            r = self.attribute(c)
            return None if r is None else r is not False
        return ev

    def attribute(self, c):
        """definition that getattr(module, 'name'[, None]) / hasattr gives;
        False if there is none; None if c is not of that form"""
        fn, args = fn_args(c)
        if fn is None or fn.op != 'ext' or fn.args[0] not in (
                'builtins.getattr', 'builtins.hasattr') or len(args) < 2:
            return None
        if args[0].op != 'module' or not isinstance(cval(args[1]), str):
            return None
        nm = args[0].args[0]
        m = nm if hasattr(nm, 'bindings') else self.prog.modules.get(nm)
        if m is None:
            return None
        r = self.own(m, cval(args[1]))
        return r if r is not None else (
            False if cval(args[1]) not in m.bindings else None)

    def leaves(self, v, ev):
        if v.op == 'ite' and len(v.args) == 3:
            k = value(v.args[0], ev)
            out = []
            if k is not False:
                out += self.leaves(v.args[1], ev)
            if k is not True:
                out += self.leaves(v.args[2], ev)
            return out
        if v.op == 'phi':
            return [y for x in alternatives(v) for y in self.leaves(x, ev)]
        if self.attribute(v) is False:
            fn, args = fn_args(v)
            return [args[2]] if len(args) > 2 else []
        return [v]

    def what(self, v):
        """definitions of backends that a value is made of"""
        out = set()
        defs = {self.own(m, n): m for m in self.mods for ns in
                SERVICES.values() for n in ns if self.own(m, n) is not None}
        for s in subterms(v):
            if s.op in ('func', 'class') and s.args[0] in defs:
                out.add(s.args[0])
            r = self.attribute(s)
            if r not in (None, False) and r in defs:
                out.add(r)
        return out

    # -- AES
    def attempts(self):
        ctx = self.ctx
        f = self.own(self.plat, 'get_aes128ecb_decrypt')
        if f is None:
            return
        provs = [h for h in self.prog.functions if h.module is self.plat and
                 h.parent is None and h is not f and
                 h.name.startswith('get_aes128ecb_decrypt')]
        g = self.inside(f, skip=provs)
        calls = [n for n in g.nodes if n.kind == 'call' and
                 n.get('target') in provs]
        if not calls:
            return
        for h in provs:
            ns = [n for n in calls if n.get('target') is h]
            ctx.check(ns, 'C02.attempts', h.fullname,
                      'this provider is never tried', ctx.graphs[h].nodes[
                          0].loc)
        for n in calls:
            what = '%s: %s' % (f.name, n.get('target').name)
            exc = [y for y, l in n.succ if l == 'exc']
            esc = [y for y in exc if g.nodes[y].kind == 'exit-raise']
            if esc:
                ctx.bad('C02.attempts', what, 'a failure of this provider '
                        'ends the selection', n.loc)
                continue
            # without it, some other provider is still returned
            ids = reachable(g, exc) if exc else set()
            others = [c for c in calls if c.get('target') is not
                      n.get('target')]
            before = [c for c in others
                      if n.id in reachable(g, [y for y, l in c.succ
                                               if l == 'exc'])]
            later = [c for c in others if c.id in ids]
            bad = None
            if len(before) + len(later) < len(others):
                bad = 'a failure of this provider does not lead to the others'
            for e in g.nodes:
                if e.kind == 'exit-return' and e.id in ids and is_none(
                        e.value):
                    bad = 'selection ends without a result'
            ctx.check(not bad, 'C02.attempts', what, bad, n.loc)
        for h in provs:
            hg = ctx.graphs[h]
            for n in hg.nodes:
                if n.kind == 'exit-return' and is_none(n.value):
                    ctx.bad('C02.attempts', h.fullname, 'may return nothing '
                            'instead of raising', n.loc)
            inner = [x for x in self.prog.functions if x.parent is h]
            for x in inner:
                for n in ctx.graphs[x].nodes:
                    if n.kind == 'import' and is_foreign(str(n.get('name'))):
                        ctx.bad('C02.attempts', h.fullname, '%s is imported '
                                'after the provider was selected' %
                                n.get('name'), n.loc)
                ctx.check(accepts(x, 2, False), 'C02.attempts',
                          '%s(key, ciphertext)' % x.fullname,
                          'does not accept two arguments',
                          ctx.graphs[x].nodes[0].loc)

    # -- signatures
    def signatures(self):
        ctx = self.ctx
        for name, k in OPS.items():
            fs = [(m, self.own(m, name)) for m in self.mods]
            fs = [(m, f) for m, f in fs if isinstance(f, FuncInfo)]
            self.alike(name, [f for _, f in fs], k)
            if name == 'xslt_compile':
                for _, f in fs:
                    ctx.check(f.node.args.kwarg is not None,
                              'C02.signatures', f.fullname + '(**params)',
                              'does not accept parameters of stylesheets',
                              ctx.graphs[f].nodes[0].loc)
        for cname, ms in METHODS.items():
            cs = [(m, self.own(m, cname)) for m in self.mods]
            cs = [c for m, c in cs if isinstance(c, ClassInfo) and (
                cname != 'XSLT' or self.own(m, 'xslt_compile'))]
            for meth, k in ms.items():
                fs = []
                for c in cs:
                    f = self.prog.method(c, meth)
                    what = '%s:%s.%s' % (c.module.name, cname, meth)
                    if f is None:
                        if not self.prog.class_attr(c, meth) and \
                                self.known_bases(c):
                            ctx.bad('C02.signatures', what, 'is missing in '
                                    'this backend', c.module.name)
                        continue
                    fs.append(f)
                self.alike('%s.%s' % (cname, meth), fs, k, True)

    def known_bases(self, c):
        return all(isinstance(x, ClassInfo) or x == ('ext', 'builtins.object')
                   for x in self.prog.mro(c))

    def alike(self, what, fs, k, method=False):
        ctx = self.ctx
        for f in fs:
            ctx.check(accepts(f, k, method), 'C02.signatures', f.fullname,
                      'does not accept %d arguments like the other backends'
                      % k, ctx.graphs[f].nodes[0].loc)
        orders = {}
        for f in fs:
            a = f.node.args
            ns = [x.arg for x in a.posonlyargs + a.args][
                1 if method else 0:][:k]
            orders.setdefault(frozenset(ns), {}).setdefault(
                tuple(ns), []).append(f)
        for names, d in orders.items():
            if len(d) > 1 and len(names) > 1:
                least = min(d.values(), key=len)
                ctx.bad('C02.signatures', least[0].fullname + ' order',
                        'takes the arguments of %s in another order than '
                        'other backends' % what,
                        ctx.graphs[least[0]].nodes[0].loc)

    # -- kinds of results
    def outcomes(self):
        ctx = self.ctx
        todo = {}
        for name in ('xslt', 'relaxng'):
            todo[name] = [f for m in self.mods
                          for f in [self.own(m, name)]
                          if isinstance(f, FuncInfo)]
        for cname, meths in (('XSLT', ('transform',
                                       'transform_into_stream')),
                             ('RelaxNG', ('validate', 'validate_stream'))):
            for meth in meths:
                for m in self.mods:
                    c = self.own(m, cname)
                    f = self.prog.method(c, meth) if isinstance(
                        c, ClassInfo) else None
                    if f is not None:
                        todo.setdefault('%s.%s' % (cname, meth),
                                        []).append(f)
        for name, fs in todo.items():
            kinds = {f: self.kinds(f) for f in fs}
            known = [k for ks in kinds.values() for k in ks if k != '?']
            if not known:
                continue
            usual = max(set(known), key=known.count)
            for f, ks in kinds.items():
                odd = ks - {usual, '?'}
                ctx.check(not odd, 'C02.outcomes', f.fullname,
                          'returns %s where other backends return %s' %
                          (', '.join(sorted(odd)), usual),
                          ctx.graphs[f].nodes[0].loc)

    def kinds(self, f, depth=4):
        g = self.ctx.graphs.get(f)
        if g is None or depth == 0:
            return {'?'}
        out = set()
        for n in g.nodes:
            if n.kind != 'exit-return':
                continue
            for v in alternatives(n.value):
                out |= self.kind(v, depth)
        return out

    def kind(self, v, depth):
        if is_const(v):
            c = v.args[0]
            return {'nothing' if c is None else type(c).__name__}
        if v.op in ('dict',) or v.op == 'container' and v.args and \
                v.args[0] == 'dict':
            return {'dict'}
        if v.op in ('cmp', 'not'):
            return {'bool'}
        fn, args = fn_args(v)
        if fn is not None and fn.op == 'ext':
            nm = fn.args[0]
            if nm == 'builtins.dict':
                return {'dict'}
            if nm == 'builtins.bool':
                return {'bool'}
        if fn is not None and fn.op == 'func':
            return self.kinds(fn.args[0], depth - 1)
        return {'?'}

    # -- external programs
    def programs(self):
        ctx = self.ctx
        for f, g in ctx.graphs.items():
            if not f.module.name.startswith('hwp5.plat'):
                continue
            for n in g.nodes:
                if n.kind != 'call' or n.fn is not T(
                        'ext', 'subprocess.Popen'):
                    continue
                self.program(f, g, n)

    def program(self, f, g, n):
        ctx = self.ctx
        p = n.result
        what = '%s at Popen' % f.fullname
        codes = [s for m in g.nodes for v in term_values(m)
                 for s in subterms(v) if self.code_of(s, p)]
        used = any(p in subterms(a) for m in g.nodes if m.kind == 'call' and
                   isinstance(m.get('target'), FuncInfo) for a in m.args)
        stored = any(m.kind in ('setattr', 'setitem', 'yield') and
                     p in subterms(m.value) for m in g.nodes
                     if m.get('value') is not None)
        given = any(m.kind == 'exit-return' and p in subterms(m.value) and
                    not any(self.code_of(s, p) for s in subterms(m.value))
                    for m in g.nodes)
        if not codes:
            if not used and not stored and not given:
                ctx.bad('C02.failures', what, 'the return code of the '
                        'program is not looked at', n.loc)
            return
        after = [y for y, l in n.succ if l != 'exc']
        failed = walk(g, after, self.returned(p, 1))
        worked = walk(g, after, self.returned(p, 0))
        bad = None
        for m in g.nodes:
            if m.kind == 'exit-return' and m.id in failed:
                if any(self.code_of(s, p) for s in subterms(m.value)):
                    # the outcome is the return value
                    a = [value(v, self.returned(p, 1))
                         for v in alternatives(m.value)]
                    b = [value(v, self.returned(p, 0))
                         for v in alternatives(m.value)]
                    if True in a or False in b:
                        bad = 'failure of the program is reported as success'
                elif not self.undecided(g, p):
                    vs = {value(v, lambda c: None)
                          for v in alternatives(m.value)}
                    if vs != {False} or is_none(m.value):
                        bad = 'returns normally when the program has failed'
        if not any(m.kind == 'exit-return' and m.id in worked
                   for m in g.nodes):
            bad = 'raises when the program has succeeded'
        # the return code is only known after waiting
        dom = dominators(g)
        waits = {m.id for m in g.nodes if m.kind == 'call' and
                 m.fn.op == 'attr' and m.fn.args[0] is p and
                 m.fn.args[1] in ('wait', 'communicate')}
        waits |= {m.id for m in g.nodes if m.kind == 'exit-with' and
                  any(p is s for v in term_values(m) for s in subterms(v))}
        for m in g.nodes:
            if m.kind in ('branch', 'exit-return') and not bad:
                c = m.cond if m.kind == 'branch' else m.value
                if c is not None and any(
                        s is T('attr', p, 'returncode')
                        for s in subterms(c)) and waits:
                    if not self.waited(g, after, m.id, waits):
                        bad = 'reads the return code before the program ' \
                            'has ended'
        ctx.check(not bad, 'C02.failures', what, bad, n.loc)

    def waited(self, g, starts, target, waits):
        seen = set()
        st = list(starts)
        while st:
            x = st.pop()
            if x in seen or x in waits:
                continue
            seen.add(x)
            if x == target:
                return False
            st.extend(y for y, l in g.nodes[x].succ if l != 'exc')
        return True

    def code_of(self, s, p):
        if s is T('attr', p, 'returncode'):
            return True
        fn, args = fn_args(s)
        return fn is not None and fn.op == 'attr' and fn.args[0] is p and \
            fn.args[1] in ('wait', 'poll')

    def undecided(self, g, p):
        """conditions on the return code that are not understood"""
        for m in g.nodes:
            if m.kind == 'branch' and m.cond is not None and any(
                    self.code_of(s, p) for s in subterms(m.cond)):
                if value(m.cond, self.returned(p, 1)) is None:
                    return True
        for m in g.nodes:
            # handed to a function that may judge it
            if m.kind == 'call' and isinstance(m.get('target'), FuncInfo) \
                    and any(self.code_of(s, p) or s is p
                            for a in m.args for s in subterms(a)):
                return True
        return False

    def returned(self, p, rc):
        def ev(c):
            if self.code_of(c, p):
                return bool(rc)
            if c.op == 'cmp':
                op, a, b = c.args
                if self.code_of(b, p) and is_const(a):
                    a, b = b, a
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(
                        op, op)
                if self.code_of(a, p) and is_const(b):
                    v = cval(b)
                    if v is None:
                        return op in ('is not', '!=')
                    if isinstance(v, int):
                        return {'==': rc == v, '!=': rc != v, '<': rc < v,
                                '>': rc > v, '<=': rc <= v, '>=': rc >= v,
                                'is': rc == v, 'is not': rc != v}.get(op)
            return None
        return ev

    # -- OLE storages
    def storages(self):
        ctx = self.ctx
        for m in self.mods:
            c = self.own(m, 'OleStorage')
            if not isinstance(c, ClassInfo):
                continue
            f = self.prog.method(c, '__init__')
            g = ctx.graph(f, inline=lambda h, w=None: h.module is m and
                          not h.name.startswith('import_')) if f else None
            if g is not None:
                self.opened(c, f, g)
            f = self.prog.method(c, '__getitem__')
            g = ctx.graph(f, inline=lambda h, w=None: h.module is m and
                          h.name != '__init__' and h.cls is None) \
                if f else None
            if g is not None:
                self.item(c, f, g)

    def opened(self, c, f, g):
        """files that are not OLE files raise InvalidOleStorageError"""
        ctx = self.ctx
        what = '%s:%s' % (c.module.name, c.name)
        ids = reachable(g, [0])
        raised = [n for n in g.nodes if n.kind == 'raise' and n.id in ids and
                  self.names(n.get('exc'), 'InvalidOleStorageError')]
        ctx.check(raised, 'C02.failures', what, 'InvalidOleStorageError is '
                  'never raised for invalid files', g.nodes[0].loc)
        hs = {}
        for n in g.nodes:
            if n.kind == 'handler' and n.id in ids:
                hs[n.id] = n
        guarded = []
        for h in hs.values():
            # what the handler leads to
            after = reachable(g, [h.id])
            if any(r.id in after for r in raised):
                guarded.append(h)
                normal = [e for e in g.nodes if e.kind == 'exit-return' and
                          self.first_exit(g, h.id, raised, e.id)]
                ctx.check(not normal, 'C02.failures', what + ' handler',
                          'a file that cannot be opened is not reported',
                          h.loc)
        if raised:
            calls = [n for n in g.nodes if n.kind == 'call' and any(
                y == h.id for h in guarded for y, l in n.succ if l == 'exc')]
            ctx.check(calls, 'C02.failures', what + ' opening',
                      'exceptions of the library are passed on as they are',
                      g.nodes[0].loc)
            if not calls:
                return
            good = {n.result for n in calls}
            touched = {s for n in calls for v in term_values(n)
                       for s in subterms(v)}
            for n in g.nodes:
                if n.kind != 'setattr' or n.id not in ids or n.obj.op not in (
                        'inst', 'sym'):
                    continue
                for v in alternatives(n.value):
                    if v.op not in ('res', 'pure') or not any(
                            s.op == 'ext' and is_foreign(s.args[0])
                            for s in subterms(v)):
                        continue
                    ctx.check(set(subterms(v)) & good or v in touched,
                              'C02.failures', '%s %s' % (what, n.attr),
                              'exceptions of %s are passed on as they are' %
                              short(fn_args(v)[0], 50), n.loc)

    def first_exit(self, g, start, raised, target):
        stop = {r.id for r in raised}
        seen = set()
        st = [start]
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            if x == target:
                return True
            st.extend(y for y, l in g.nodes[x].succ if l != 'exc')
        return False

    def names(self, t, name):
        return t is not None and isinstance(t, Term) and any(
            s.op == 'class' and s.args[0].name == name or
            s.op == 'inst' and getattr(s.args[0], 'name', '') == name or
            s.op == 'ext' and s.args[0].endswith(name)
            for s in subterms(t)) or t is not None and name in short(t, 400)

    def item(self, c, f, g):
        ctx = self.ctx
        what = '%s:%s[]' % (c.module.name, c.name)
        ids = reachable(g, [0])
        raised = [n for n in g.nodes if n.kind == 'raise' and n.id in ids and
                  n.get('exc') is not None]
        own = [n for n in raised if self.builtin_exc(n.exc)]
        ctx.check(not raised or any(self.names(n.exc, 'KeyError')
                                    for n in raised),
                  'C02.failures', what, 'no KeyError for a name that does '
                  'not exist', g.nodes[0].loc)
        for n in own:
            if not self.names(n.exc, 'KeyError'):
                ctx.bad('C02.failures', what + ' raise', '%s is raised '
                        'instead of KeyError' % short(n.exc, 60), n.loc)
        for n in g.nodes:
            if n.kind == 'exit-return' and n.id in ids and any(
                    is_none(v) for v in alternatives(n.value)):
                ctx.bad('C02.failures', what + ' none', 'returns nothing '
                        'instead of raising KeyError', n.loc)

    def builtin_exc(self, t):
        fn, args = fn_args(t)
        t = fn if fn is not None else t
        return t.op == 'ext' and t.args[0].startswith('builtins.') or \
            t.op == 'inst'

    # -- parameters of stylesheets
    def parameters(self):
        ctx = self.ctx
        fs = [self.own(m, 'xslt_compile') for m in self.mods]
        fs = [f for f in fs if isinstance(f, FuncInfo)]
        h = self.own(self.plat, 'xslt_compile_with_files')
        if isinstance(h, FuncInfo):
            fs.append(h)
        for f in fs:
            kw = f.node.args.kwarg
            if kw is None:
                continue
            self.used(f, kw.arg, 'C02.parameters')
        for m in self.mods:
            c = self.own(m, 'XSLT')
            if not isinstance(c, ClassInfo) or not self.own(
                    m, 'xslt_compile'):
                continue
            f = self.prog.method(c, '__init__')
            if f is None or f.node.args.kwarg is None:
                continue
            if not self.used(f, f.node.args.kwarg.arg, 'C02.parameters'):
                continue
            self.kept(m, c, f)
            self.strings(m, c)

    def used(self, f, name, rule):
        ok = any(isinstance(n, ast.Name) and n.id == name and
                 isinstance(n.ctx, ast.Load)
                 for n in ast.walk(f.node))
        self.ctx.check(ok, rule, f.fullname, 'parameters are ignored',
                       self.ctx.graphs[f].nodes[0].loc)
        return ok

    def kept(self, m, c, f):
        """attributes that depend on the parameters are used by each of the
        transformations"""
        ctx = self.ctx
        tainted = {f.node.args.kwarg.arg}
        attrs = set()
        this = f.node.args.args[0].arg if f.node.args.args else None
        for _ in range(4):
            for n in ast.walk(f.node):
                def mentions(x):
                    return x is not None and any(
                        isinstance(y, ast.Name) and y.id in tainted
                        for y in ast.walk(x))
                if isinstance(n, (ast.For, ast.comprehension)) and \
                        mentions(n.iter):
                    tainted |= {y.id for y in ast.walk(n.target)
                                if isinstance(y, ast.Name)}
                if isinstance(n, (ast.Assign, ast.AugAssign,
                                  ast.AnnAssign)) and mentions(n.value):
                    for t in (n.targets if isinstance(n, ast.Assign)
                              else [n.target]):
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and isinstance(
                                    y.value, ast.Name) and \
                                    y.value.id == this:
                                attrs.add(y.attr)
                            elif isinstance(y, ast.Name) and isinstance(
                                    y.ctx, ast.Store):
                                tainted.add(y.id)
                            elif isinstance(y, ast.Name) and isinstance(
                                    t, ast.Subscript) and y.id != this:
                                tainted.add(y.id)
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and any(
                        mentions(a) for a in n.args + [
                            k.value for k in n.keywords]):
                    for y in ast.walk(n.func.value):
                        if isinstance(y, ast.Attribute) and isinstance(
                                y.value, ast.Name) and y.value.id == this:
                            attrs.add(y.attr)
                        elif isinstance(y, ast.Name) and \
                                y.id in f.local_names and y.id != this:
                            tainted.add(y.id)
        if not attrs:
            ctx.bad('C02.parameters', f.fullname + ' kept', 'parameters are '
                    'not kept for the transformation',
                    ctx.graphs[f].nodes[0].loc)
            return
        for meth in ('transform', 'transform_into_stream'):
            h = self.prog.method(c, meth)
            if h is None:
                continue
            read = set()
            for x in self.of_class(h, c):
                for n in ast.walk(x.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Load) and n.attr in attrs:
                        read.add(n.attr)
            ctx.check(read, 'C02.parameters', h.fullname, 'the parameters '
                      '(%s) are not used by this transformation' %
                      ', '.join(sorted(attrs)), ctx.graphs[h].nodes[0].loc)

    def of_class(self, h, c):
        """methods of c and functions of its module that h gets to"""
        seen = set()
        st = [h]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in self.ctx.cg.succ.get(x, ()):
                if y.module is h.module:
                    st.append(y)
        return seen

    def strings(self, m, c):
        """values of parameters are strings, not XPath expressions"""
        ctx = self.ctx
        src = m.tree
        opts = [n.value for n in ast.walk(src) if isinstance(n, ast.Constant)
                and n.value in ('--param', '--stringparam')]
        what = '%s: strings' % m.name
        if opts:
            ctx.check('--param' not in opts, 'C02.parameters', what,
                      'values are given as XPath expressions',
                      m.name)
        if any(x.startswith('lxml') for x in imported_of(src)):
            ok = any(isinstance(n, ast.Attribute) and n.attr == 'strparam'
                     or isinstance(n, ast.Constant) and n.value == 'strparam'
                     for n in ast.walk(src))
            ctx.check(ok, 'C02.parameters', what, 'values are given as '
                      'XPath expressions, not through strparam()', m.name)

    # -- validation
    def validated(self):
        ctx = self.ctx
        for m in self.mods:
            c = self.own(m, 'RelaxNG')
            if not isinstance(c, ClassInfo):
                continue
            for nm in ('validate', 'validate_stream'):
                f = self.prog.method(c, nm)
                if f is None:
                    continue
                for h in self.of_class(f, c):
                    for n in ctx.graphs[h].nodes:
                        if n.kind == 'raise' and self.names(
                                n.get('exc'), 'ValidationFailed'):
                            ctx.bad('C02.failures', f.fullname, 'raises '
                                    'instead of returning the outcome',
                                    n.loc)
            f = self.prog.method(c, 'validating_output')
            if f is not None:
                self.validating(m, c, f)

    def validating(self, m, c, f):
        ctx = self.ctx
        vals = {self.prog.method(c, 'validate'): 'name',
                self.prog.method(c, 'validate_stream'): 'stream'}
        vals.pop(None, None)
        g = ctx.graph(f, inline=lambda h, w=None: h.module is m and
                      h not in vals and h.cls in (None, c))
        out = T('sym', 'output')
        params = [a.arg for a in f.node.args.args]
        if len(params) > 1:
            out = T('sym', params[1])
        what = f.fullname
        ys = [n for n in g.nodes if n.kind == 'yield']
        if not ys:
            return
        for y in ys:
            if y.value is out:
                ctx.bad('C02.validated', what + ' yield', 'what is written '
                        'goes to the output before it is validated', y.loc)
                return
        copies = [n for n in g.nodes if n.kind == 'call' and (
            n.fn.op == 'attr' and n.fn.args[0] is out and
            n.fn.args[1] in ('write', 'writelines') or
            n.fn.op == 'ext' and n.fn.args[0].endswith('copyfileobj') and
            len(n.args) > 1 and n.args[1] is out)]
        checks = [n for n in g.nodes if n.kind == 'call' and
                  n.get('target') in vals]
        if not copies:
            if not any(out in subterms(v) for n in g.nodes
                       for v in term_values(n) if n.kind == 'call'):
                ctx.bad('C02.validated', what + ' copy', 'the validated '
                        'document is not written to the output', g.nodes[
                            0].loc)
            return
        start = [s for y in ys for s, l in y.succ if l not in (
            'exc', 'genexit')]
        if not checks:
            if not any(n.kind == 'call' and ctx.cg.closure(
                    [n.get('target')]) & set(vals)
                    for n in g.nodes if isinstance(n.get('target'),
                                                   FuncInfo)):
                ctx.bad('C02.validated', what, 'nothing is validated',
                        g.nodes[0].loc)
            return
        results = {n.result for n in checks}

        def ev(ok):
            def e(x):
                if x in results:
                    return ok
                if x.op == 'cmp' and x.args[1] in results and is_const(
                        x.args[2]):
                    v = cval(x.args[2])
                    if v in (True, False) and x.args[0] in (
                            'is', '==', 'is not', '!='):
                        return (ok == v) == (x.args[0] in ('is', '=='))
                    if v is None:
                        return x.args[0] in ('is not', '!=')
                return None
            return e
        bad = walk(g, start, ev(False))
        good = walk(g, start, ev(True))
        for n in copies:
            ctx.check(n.id not in bad, 'C02.validated', what,
                      'an invalid document is passed on', n.loc)
            if n.id not in good:
                ctx.bad('C02.validated', what + ' valid', 'a valid document '
                        'is not passed on', n.loc)
        ctx.check(not any(n.kind == 'exit-return' and n.id in bad
                          for n in g.nodes), 'C02.validated',
                  what + ' outcome', 'an invalid document is not reported',
                  g.nodes[0].loc)
        if any(n.kind == 'raise' and n.id in bad for n in g.nodes):
            ctx.check(any(n.kind == 'raise' and n.id in bad and
                          self.names(n.get('exc'), 'ValidationFailed')
                          for n in g.nodes), 'C02.validated',
                      what + ' exception', 'an invalid document does not '
                      'raise ValidationFailed', g.nodes[0].loc)
        # the temporary file is rewound before it is read, and flushed before
        # it is read by name
        files = {y.value for y in ys}

        def attr_call(n, names):
            return n.kind == 'call' and n.fn.op == 'attr' and \
                n.fn.args[0] in files and n.fn.args[1] in names
        reads = [(n, 'seek') for n in copies if n.fn.op == 'ext' and
                 n.args[0] in files]
        for n in checks:
            arg = n.args[-1] if n.args else None
            if vals[n.get('target')] == 'stream' and arg in files:
                reads.append((n, 'seek'))
            elif vals[n.get('target')] == 'name':
                reads.append((n, 'flush'))
        for n, need in reads:
            ok = {x.id for x in g.nodes if attr_call(
                x, ('seek',) if need == 'seek' else
                ('flush', 'close', 'seek', 'truncate')) and (
                need != 'seek' or x.args and cval(x.args[0]) == 0)}
            ok |= {x.id for x in g.nodes if x.kind == 'exit-with'} \
                if need == 'flush' else set()
            starts = list(start)
            if need == 'seek':
                # and after anything that moved the position
                starts += [s for r, _ in reads if r is not n and
                           r.args and r.args[-1] in files
                           for s, l in r.succ if l != 'exc']
            hit = not self.waited(g, starts, n.id, ok)
            ctx.check(not hit, 'C02.validated', '%s %s' % (what, need),
                      'the temporary file is read without %s() before' %
                      need, n.loc)

    # -- optional packages
    def optional(self):
        ctx = self.ctx
        # modules loaded with hwp5.plat
        todo = ['hwp5.plat']
        seen = set()
        while todo:
            nm = todo.pop()
            m = self.prog.modules.get(nm)
            if m is None or nm in seen:
                continue
            seen.add(nm)
            for st, guards in top_level(m.tree.body, ()):
                names = []
                if isinstance(st, ast.Import):
                    names = [a.name for a in st.names]
                elif isinstance(st, ast.ImportFrom):
                    base = relative(m, st)
                    names = [base] + [base + '.' + a.name for a in st.names]
                for x in names:
                    if not is_foreign(x):
                        todo.append(x)
                    elif x == names[0] or isinstance(st, ast.Import):
                        ctx.check(guards, 'C02.optional', '%s: %s' % (nm, x),
                                  'is imported unconditionally although '
                                  'another backend may be used', m.name)
        for m in self.mods:
            f = self.own(m, 'is_enabled')
            if not isinstance(f, FuncInfo):
                continue
            for h in {f} | {x for x in ctx.cg.closure([f])
                            if x.module is m and x.parent is None and
                            x.cls is None}:
                g = ctx.graphs[h]
                ids = reachable(g, [0])
                for n in g.nodes:
                    if n.kind == 'import' and n.id in ids and is_foreign(
                            str(n.get('name'))):
                        esc = self.escapes(h.node, n.get('name'))
                        if esc is None:
                            continue
                        ctx.check(not esc, 'C02.optional', '%s: %s' % (
                            h.fullname, n.get('name')), 'raises when the '
                            'package is not installed', n.loc)
            g = ctx.graphs[f]
            ids = reachable(g, [0])
            for n in g.nodes:
                if n.kind == 'exit-return' and n.id in ids and any(
                        is_none(v) for v in alternatives(n.value)):
                    ctx.bad('C02.optional', f.fullname, 'has no answer',
                            n.loc)
            # both answers are possible
            vals = {value(v, lambda c: None) for n in g.nodes
                    if n.kind == 'exit-return' and n.id in ids
                    for v in alternatives(n.value)}
            ctx.check(vals != {False}, 'C02.optional', f.fullname +
                      ' answers', 'is never enabled', g.nodes[0].loc)
            if any(n.kind == 'import' and is_foreign(str(n.get('name')))
                   for n in g.nodes):
                self.absent(f, g)

    def absent(self, f, g):
        """with every foreign import failing, the answer is no"""
        ctx = self.ctx
        seen = set()
        st = [0]
        hit = None
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            n = g.nodes[x]
            foreign = n.kind == 'import' and is_foreign(str(n.get('name')))
            if n.kind == 'exit-return' and any(
                    value(v, lambda c: None) is True
                    for v in alternatives(n.value)):
                hit = n
            for y, l in n.succ:
                if foreign != (l == 'exc'):
                    continue
                st.append(y)
        ctx.check(hit is None, 'C02.optional', f.fullname + ' absent',
                  'is enabled although the package is not installed',
                  hit.loc if hit is not None else g.nodes[0].loc)

    def escapes(self, fnode, name):
        """import of `name` in a function is outside of any try that handles
        ImportError"""
        found = []

        def visit(n, guards):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                ns = [a.name for a in n.names] if isinstance(
                    n, ast.Import) else [n.module or '']
                if any(name == x or name.startswith(x + '.') or
                       x.startswith(name) for x in ns):
                    found.append(not guards)
                return
            if isinstance(n, ast.Try):
                g2 = guards or catches_import(n)
                for b in n.body:
                    visit(b, g2)
                for b in n.orelse + n.finalbody + [
                        y for h in n.handlers for y in h.body]:
                    visit(b, guards)
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch, guards)
        for st in fnode.body:
            visit(st, False)
        return any(found) if found else None

    # -- settings
    def live(self):
        ctx = self.ctx
        settings = {}        # module -> names that are assigned by functions
        for m in self.mods:
            names = set()
            for f in self.prog.functions:
                if f.module is m and f.parent is None:
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Global):
                            names |= set(n.names)
            if 'executable' in m.bindings:
                names.add('executable')
            settings[m.name] = names & set(m.bindings)
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom):
                    base = relative(m, n)
                    for a in n.names:
                        if a.name in settings.get(base, ()):
                            ctx.bad('C02.live', '%s: %s.%s' % (
                                m.name, base, a.name), 'a copy of this '
                                'setting does not follow its changes',
                                'src/%s.py:%d' % (m.name.replace('.', '/'),
                                                  n.lineno))
        for nm, names in settings.items():
            m = self.prog.modules[nm]
            for s in sorted(names):
                bad = None
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                        for d in n.args.defaults + n.args.kw_defaults:
                            if d is not None and any(
                                    isinstance(x, ast.Name) and x.id == s
                                    for x in ast.walk(d)):
                                bad = 'is evaluated once, as a default'
                for st, guards in top_level(m.tree.body, ()):
                    v = getattr(st, 'value', None)
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and \
                            v is not None and any(
                            isinstance(x, ast.Name) and x.id == s
                            for x in ast.walk(v)):
                        bad = 'is evaluated once, when the module is loaded'
                    if isinstance(st, ast.ClassDef):
                        for b in st.body:
                            if isinstance(b, ast.Assign) and any(
                                    isinstance(x, ast.Name) and x.id == s
                                    for x in ast.walk(b.value)):
                                bad = 'is evaluated once, by a class'
                ctx.check(bad is None, 'C02.live', '%s.%s' % (nm, s), bad,
                          nm)
            self.switches(m)

    def switches(self, m):
        ctx = self.ctx
        want = {'enable': True, 'disable': False}
        for name, v in want.items():
            f = self.own(m, name)
            e = self.own(m, 'is_enabled')
            if not isinstance(f, FuncInfo) or not isinstance(e, FuncInfo):
                continue
            g = ctx.graphs[f]
            got = {}
            for n in g.nodes:
                if n.kind == 'gstore' and is_const(n.value):
                    got[n.get('name')] = n.value.args[0]
            got = {k: x for k, x in got.items() if isinstance(x, bool)}
            if not got:
                continue
            ctx.check(all(x is v for x in got.values()), 'C02.live',
                      f.fullname, 'does the opposite', g.nodes[0].loc)
            # is_enabled() reports what was set
            eg = ctx.graph(e, inline=lambda h, w=None: h.module is m)
            for k, x in got.items():
                def ev(c, k=k, x=x):
                    def is_it(t):
                        return t.op == 'gval' and t.args[1] == k
                    if is_it(c):
                        return x
                    if c.op == 'cmp' and is_it(c.args[1]) and is_none(
                            c.args[2]):
                        return c.args[0] in ('is not', '!=')
                    return None
                if any('environ' in short(n.cond, 400) for n in eg.nodes
                       if n.kind == 'branch' and n.cond is not None):
                    continue
                ids = walk(eg, [0], ev)
                for n in eg.nodes:
                    if n.kind == 'exit-return' and n.id in ids:
                        r = [value(a, ev) for a in self.leaves(n.value, ev)]
                        if (not x) in r:
                            ctx.bad('C02.live', '%s after %s' % (
                                e.fullname, name), 'does not give what was '
                                'set', n.loc)
                        elif x in r:
                            ctx.ok('C02.live', '%s after %s' % (
                                e.fullname, name))

    # -- environment
    def configured(self):
        ctx = self.ctx
        init = None
        for m in self.prog.modules.values():
            f = self.own(m, 'init_with_environ')
            if isinstance(f, FuncInfo) and f.module is m:
                init = f
        if init is None:
            return
        g = ctx.graph(init, inline=lambda h, w=None: h.module is
                      init.module)
        for var, mod in (('PYHWP_XSLTPROC', 'hwp5.plat.xsltproc'),
                         ('PYHWP_XMLLINT', 'hwp5.plat.xmllint')):
            if mod not in self.prog.modules:
                continue
            self.variable(g, init, var, self.prog.modules[mod])
        sel = {self.own(self.plat, s) for s in SERVICES
               if 'ole' not in s} - {None}
        from .R10 import entry_points
        for f in entry_points(ctx).values():
            clo = ctx.cg.closure([f])
            if not clo & sel:
                continue
            if init not in clo:
                if f.module.name.startswith('hwp5.proc'):
                    continue
                ctx.bad('C02.configured', f.fullname, 'selects backends '
                        'without the settings of the environment',
                        ctx.graphs[f].nodes[0].loc)
                continue
            eg = ctx.graphs[f]
            calls = {n.id for n in eg.nodes if n.kind == 'call' and
                     n.get('target') is init}
            if not calls:
                continue
            bad = None
            for n in eg.nodes:
                t = n.get('target')
                if n.kind == 'call' and isinstance(t, FuncInfo) and \
                        t is not init and ctx.cg.closure([t]) & sel and \
                        not self.waited(eg, [0], n.id, calls):
                    bad = n
            ctx.check(bad is None, 'C02.configured', f.fullname,
                      'selects backends before the settings of the '
                      'environment are read', bad.loc if bad is not None
                      else None)

    def variable(self, g, init, var, m):
        ctx = self.ctx

        def reads(t):
            return any(is_const(s) and s.args[0] == var
                       for s in subterms(t))
        what = '%s: %s' % (init.fullname, var)
        mentions = any(reads(v) for n in g.nodes for v in term_values(n))
        if not mentions:
            ctx.bad('C02.configured', what, 'this variable has no effect',
                    g.nodes[0].loc)
            return
        sets = [n for n in g.nodes if n.kind in ('setattr', 'gstore') and
                n.get('value') is not None and reads(n.value)]
        dom = dominators(g)
        for n in sets:
            obj = n.get('obj')
            if n.kind == 'setattr' and obj is not None and obj.op == 'module':
                nm = obj.args[0]
                nm = nm if isinstance(nm, str) else nm.name
                ok = nm == m.name and n.get('attr') == 'executable'
                ctx.check(ok, 'C02.configured', what, 'sets %s.%s' % (
                    nm, n.get('attr')), n.loc)
        en = self.own(m, 'enable')
        if sets and isinstance(en, FuncInfo):
            ons = [n for n in g.nodes if n.get('target') is en]
            ctx.check(ons, 'C02.configured', what + ' enable', '%s is not '
                      'enabled' % m.name, g.nodes[0].loc)
            for n in ons:
                facts = norm_facts(facts_at(g, n.id, dom))
                if not facts:
                    ctx.bad('C02.configured', what + ' condition', '%s is '
                            'enabled without this variable' % m.name, n.loc)
                elif not any(reads(c) for c, _ in facts):
                    ctx.bad('C02.configured', what + ' condition',
                            '%s is enabled under another condition' %
                            m.name, n.loc)

    # -- streams
    def files(self):
        ctx = self.ctx
        for c in self.prog.classes:
            if not c.module.name.startswith('hwp5.plat.'):
                continue
            meths = {n: self.prog.method(c, n) for n in FILE}
            if not all(isinstance(f, FuncInfo) for f in meths.values()):
                continue
            for n, ks in FILE.items():
                for k in ks:
                    ctx.check(accepts(meths[n], k, True), 'C02.files',
                              '%s/%d' % (meths[n].fullname, k),
                              'does not accept %d arguments' % k,
                              ctx.graphs[meths[n]].nodes[0].loc)
            self.reading(c, meths['read'])
            self.seeking(c, meths['seek'])
        for f in self.prog.functions:
            # methods that are made by a constructor
            if f.parent is not None and f.name in ('read', 'seek') and \
                    f.module.name.startswith('hwp5.plat.') and \
                    f.parent.name == '__init__':
                for k in FILE[f.name]:
                    ctx.check(accepts(f, k, False), 'C02.files',
                              '%s/%d' % (f.fullname, k),
                              'does not accept %d arguments' % k,
                              ctx.graphs[f].nodes[0].loc)
                if f.name == 'seek':
                    self.seeking(None, f)

    def default(self, f, i):
        a = f.node.args
        ps = a.posonlyargs + a.args
        j = i - (len(ps) - len(a.defaults))
        if 0 <= j < len(a.defaults) and isinstance(a.defaults[j],
                                                   ast.Constant):
            return a.defaults[j].value
        return '?'

    def reading(self, c, f):
        ctx = self.ctx
        d = self.default(f, 1)
        ctx.check(d is None or d == '?' or d == -1, 'C02.files',
                  f.fullname + ' default', 'read() does not read everything',
                  ctx.graphs[f].nodes[0].loc)

    def seeking(self, c, f):
        ctx = self.ctx
        off = 1 if c is not None else 0
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        if len(ps) < off + 2:
            return
        d = self.default(f, off + 1)
        ctx.check(d in (0, '?'), 'C02.files', f.fullname + ' default',
                  'seek(offset) is not relative to the start',
                  ctx.graphs[f].nodes[0].loc)
        g = ctx.graphs[f]
        wh = T('sym', ps[off + 1])
        offset = T('sym', ps[off])
        names = {0: 'SET', 1: 'CUR', 2: 'END'}
        for k in (0, 1, 2):
            def ev(x, k=k):
                if x is wh:
                    return bool(k)
                if x.op == 'cmp' and x.args[1] is wh and isinstance(
                        cval(x.args[2]), int):
                    v = cval(x.args[2])
                    return {'==': k == v, '!=': k != v, '<': k < v,
                            '>': k > v, '<=': k <= v, '>=': k >= v}.get(
                        x.args[0])
                return None
            ids = walk(g, [0], ev)
            for n in g.nodes:
                if n.kind != 'call' or n.id not in ids or \
                        n.fn.op != 'attr' or n.fn.args[1] not in (
                            'seek', 'skip'):
                    continue
                what = '%s whence %d' % (f.fullname, k)
                vals = [self.leaves(a, ev) for a in n.args]
                if len(vals) == 2:
                    w = [x for x in vals[1]
                         if x.op == 'ext' or is_const(x)]
                    if len(w) != 1 or len(vals[1]) != 1:
                        continue
                    w = w[0]
                    if is_const(w):
                        ok = w.args[0] == k
                    else:
                        last = w.args[0].rpartition('.')[2]
                        if last not in names.values():
                            continue
                        ok = last == names[k]
                    ctx.check(ok, 'C02.files', what, 'seeks by %s' %
                              short(w, 40), n.loc)
                elif len(vals) == 1 and len(vals[0]) == 1:
                    v = vals[0][0]
                    parts_ = list(subterms(v))
                    has = offset in parts_
                    pos = any(x.op == 'res' and x.args[1].op == 'attr' and
                              x.args[1].args[1] in ('tell', 'getPosition')
                              or x.op == 'res' and x.args[1].op == 'func' and
                              x.args[1].args[0].name == 'tell'
                              for x in parts_)
                    other = v is not offset and not pos
                    if wh in parts_:
                        continue
                    ok = has and (v is offset if k == 0 else
                                  pos if k == 1 else other)
                    if k and v is not offset and not self.adds(v, offset):
                        ok = False
                    ctx.check(ok, 'C02.files', what, 'goes to %s' %
                              short(v, 60), n.loc)

    def adds(self, v, offset):
        if v.op == 'bin' and v.args[0] == '+':
            return offset in (v.args[1], v.args[2])
        return True


def accepts(f, k, method):
    """a call with k positional arguments fits the function"""
    a = f.node.args
    if method and not any(isinstance(d, ast.Name) and d.id == 'staticmethod'
                          for d in f.node.decorator_list):
        k += 1
    ps = a.posonlyargs + a.args
    if k > len(ps) and a.vararg is None:
        return False
    if k < len(ps) - len(a.defaults):
        return False
    return not [d for d in a.kw_defaults if d is None] if a.kwonlyargs \
        else True


def catches_import(t):
    for h in t.handlers:
        if h.type is None:
            return True
        for x in (h.type.elts if isinstance(h.type, ast.Tuple)
                  else [h.type]):
            nm = x.attr if isinstance(x, ast.Attribute) else getattr(
                x, 'id', '?')
            if nm in ('ImportError', 'ModuleNotFoundError', 'Exception',
                      'BaseException'):
                return True
    return False


def top_level(body, guards):
    """statements executed when a module is loaded, with whether absence of
    an imported module is handled"""
    for st in body:
        yield st, guards
        if isinstance(st, ast.If):
            yield from top_level(st.body, guards)
            yield from top_level(st.orelse, guards)
        elif isinstance(st, ast.Try):
            yield from top_level(st.body, guards or catches_import(st))
            yield from top_level(st.orelse, guards)
            for h in st.handlers:
                yield from top_level(h.body, guards)
            yield from top_level(st.finalbody, guards)
        elif isinstance(st, ast.With):
            yield from top_level(st.body, guards)


def relative(m, st):
    if not st.level:
        return st.module or ''
    base = m.name.split('.')
    if not m.is_pkg:
        base = base[:-1]
    base = base[:len(base) - (st.level - 1)]
    return '.'.join(base + ([st.module] if st.module else []))


def imported_of(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            yield n.module


P = 'hwp5/plat/__init__.py'
L = 'hwp5/plat/_lxml.py'
XP = 'hwp5/plat/xsltproc.py'
XL = 'hwp5/plat/xmllint.py'
G = 'hwp5/plat/gir_gsf.py'
O = 'hwp5/plat/olefileio.py'

witnesses = [
    ('xsltproc is never selected', P,
     "    if xsltproc.is_enabled():\n        return xsltproc.xslt\n", ""),
    ('wrong operation of a backend', P,
     "    if xmllint.is_enabled():\n        return xmllint.relaxng\n",
     "    if xmllint.is_enabled():\n        return _lxml.relaxng\n"),
    ('selection by another backend', P,
     "    if gir_gsf.is_enabled():", "    if _uno.is_enabled():"),
    ('first usable module ends the search', P,
     "            xslt = getattr(module, 'xslt', None)\n"
     "            if xslt:\n"
     "                return partial(xslt_compile_with_files, xslt)\n",
     "            return None\n"),
    ('name of the operation', P,
     "getattr(module, 'relaxng_compile', None)",
     "getattr(module, 'relaxng_compiler', None)"),
    ('AES failure ends the selection', P,
     "        return get_aes128ecb_decrypt_javax()\n    except Exception:",
     "        return get_aes128ecb_decrypt_javax()\n    except ImportError:"
     "\n        raise\n    except ValueError:"),
    ('AES provider not tried', P,
     "    try:\n        return get_aes128ecb_decrypt_openssl()\n"
     "    except Exception:\n        pass\n\n", ""),
    ('AES provider imports late', P, [
        ("    from javax.crypto import Cipher\n"
         "    from javax.crypto.spec import SecretKeySpec\n\n"
         "    def decrypt(key, ciphertext):\n",
         "    def decrypt(key, ciphertext):\n"
         "        from javax.crypto import Cipher\n"
         "        from javax.crypto.spec import SecretKeySpec\n")]),
    ('openssl unreachable returns None', P,
     "        raise NotImplementedError()\n\n    def decrypt",
     "        return None\n\n    def decrypt"),
    ('argument order', XP, [
        ("def xslt(xsl_path, inp_path, out_path):",
         "def xslt(inp_path, xsl_path, out_path):")]),
    ('missing method', XL, "    def validate_stream(self, input):",
     "    def validate_streams(self, input):"),
    ('no parameters', L,
     "def xslt_compile(xsl_path, **params):\n"
     "    xslt = XSLT(xsl_path, **params)",
     "def xslt_compile(xsl_path):\n    xslt = XSLT(xsl_path)"),
    ('kind of result', XP, [
        ("        p = Popen(cmd)\n        p.wait()\n"
         "        if p.returncode == 0:\n            return dict()",
         "        p = Popen(cmd)\n        p.wait()\n"
         "        if p.returncode == 0:\n            return True")]),
    ('return code ignored', XL,
     "        p = subprocess.Popen(args)\n        p.wait()\n"
     "        return p.returncode == 0",
     "        p = subprocess.Popen(args)\n        p.wait()\n"
     "        return True"),
    ('return code inverted', XL,
     "                p.wait()\n        return p.returncode == 0",
     "                p.wait()\n        return p.returncode != 0"),
    ('negative return codes', P,
     "            if p.returncode != 0:", "            if p.returncode > 1:"),
    ('return code before the end', XP,
     "        p = Popen(cmd)\n        p.wait()\n"
     "        if p.returncode == 0:",
     "        p = Popen(cmd)\n        if p.returncode == 0:\n"
     "            p.wait()"),
    ('failure of gsf', G,
     "            try:\n                self.gsfole = open(gsfole)\n"
     "            except Exception:\n"
     "                raise InvalidOleStorageError()",
     "            self.gsfole = open(gsfole)"),
    ('failure swallowed', O,
     "                errormsg = 'Not a valid OLE2 Compound Binary File: %s' "
     "% e\n                raise InvalidOleStorageError(errormsg)",
     "                olefile = None"),
    ('missing item of gsf', G, "            raise KeyError(name)",
     "            return None"),
    ('missing item of olefile', O,
     "            raise KeyError('%s not found' % '/'.join(path))",
     "            raise ValueError('%s not found' % '/'.join(path))"),
    ('parameters dropped', XP,
     "        for name, value in params.items():\n"
     "            self.cmd.extend(['--stringparam', name, value])\n", ""),
    ('parameters of the stream only', XP,
     "        cmd = self.cmd + ['-o', output, self.xsl_path, input]",
     "        cmd = [executable, '-o', output, self.xsl_path, input]"),
    ('parameters as expressions', XP, "'--stringparam'", "'--param'"),
    ('parameters of lxml as expressions', L,
     "etree.XSLT.strparam(value)", "value"),
    ('parameters ignored by the fallback', P,
     "    if params:\n        raise NotImplementedError('parameters of "
     "stylesheets')\n\n", ""),
    ('copy before validation', XL,
     "                f.flush()\n                if not self.validate(name):"
     "\n                    raise ValidationFailed('RelaxNG')\n"
     "                f.seek(0)\n"
     "                shutil.copyfileobj(f, output)",
     "                f.flush()\n                f.seek(0)\n"
     "                shutil.copyfileobj(f, output)\n"
     "                if not self.validate(name):\n"
     "                    raise ValidationFailed('RelaxNG')"),
    ('invalid passes', L,
     "                    raise ValidationFailed('RelaxNG')\n",
     "                    logger.error('RelaxNG')\n"),
    ('not rewound', L,
     "                yield f\n                f.seek(0)\n",
     "                yield f\n"),
    ('not rewound after validation', L,
     "                    raise ValidationFailed('RelaxNG')\n"
     "                f.seek(0)\n",
     "                    raise ValidationFailed('RelaxNG')\n"),
    ('not flushed', XL, "                f.flush()\n", ""),
    ('output not buffered', XL, "                yield f\n",
     "                yield output\n"),
    ('unconditional import', L,
     "from ..errors import ValidationFailed\n",
     "from lxml import etree\n\nfrom ..errors import ValidationFailed\n"),
    ('is_enabled raises', L,
     "    except ImportError:\n        return False",
     "    except KeyError:\n        return False"),
    ('is_enabled is always true', L,
     "    except ImportError:\n        return False",
     "    except ImportError:\n        return True"),
    ('no answer', G, "        Gsf\n        return True", "        Gsf"),
    ('executable as a default', XP, [
        ("    def __init__(self, xsl_path, **params):\n"
         "        self.xsl_path = xsl_path\n"
         "        self.cmd = [executable]",
         "    def __init__(self, xsl_path, executable=executable, **params):"
         "\n        self.xsl_path = xsl_path\n"
         "        self.cmd = [executable]")]),
    ('command at import', XL, [
        ("enabled = None\n", "enabled = None\ncommand = [executable]\n"),
        ("        args = [executable, '--noout', '--relaxng', "
         "self.rng_path, '-']",
         "        args = command + ['--noout', '--relaxng', "
         "self.rng_path, '-']")]),
    ('enable disables', XL,
     "def enable():\n    global enabled\n    enabled = True",
     "def enable():\n    global enabled\n    enabled = False"),
    ('disable has no effect', XP,
     "    if enabled is None:", "    if not enabled:"),
    ('environment of the other program', 'hwp5/cli.py',
     "        xmllint.executable = os.environ['PYHWP_XMLLINT']",
     "        xsltproc.executable = os.environ['PYHWP_XMLLINT']"),
    ('configured program is not enabled', 'hwp5/cli.py',
     "        xmllint.enable()\n", ""),
    ('environment is not read', 'hwp5/hwp5txt.py',
     "    init_with_environ()\n", ""),
    ('seek from the end', G,
     "            whence = SeekType.END", "            whence = SeekType.CUR"),
    ('seek of POI', 'hwp5/plat/jython_poifs.py',
     "            pos = self.size + offset", "            pos = offset"),
    ('seek of UNO', 'hwp5/plat/_uno/adapters.py',
     "                    offset += stream.getPosition()",
     "                    offset = stream.getPosition()"),
    ('read takes a size', G, "    def read(self, size=None):",
     "    def read(self, size):"),
]

benign = [
    ('loop instead of tests', P,
     "    if javax_transform.is_enabled():\n"
     "        return javax_transform.xslt\n"
     "    if _lxml.is_enabled():\n        return _lxml.xslt\n"
     "    if xsltproc.is_enabled():\n        return xsltproc.xslt\n"
     "    if _uno.is_enabled():\n        return _uno.xslt\n",
     "    for module in (javax_transform, _lxml, xsltproc, _uno):\n"
     "        if module.is_enabled():\n            return module.xslt\n"
     "    return None\n"),
    ('helper of selection', P, [
        ("def get_relaxng():\n    if _lxml.is_enabled():\n"
         "        return _lxml.relaxng\n    if xmllint.is_enabled():\n"
         "        return xmllint.relaxng\n",
         "def first_usable(modules):\n    for module in modules:\n"
         "        if module.is_enabled():\n            return module\n\n\n"
         "def get_relaxng():\n"
         "    module = first_usable([_lxml, xmllint])\n"
         "    if module is not None:\n        return module.relaxng\n")]),
    ('conditional expression', P,
     "    if _lxml.is_enabled():\n        return _lxml.relaxng\n"
     "    if xmllint.is_enabled():\n        return xmllint.relaxng\n",
     "    return (_lxml.relaxng if _lxml.is_enabled() else\n"
     "            xmllint.relaxng if xmllint.is_enabled() else None)\n"),
    ('loop over AES providers', P,
     "    try:\n        return get_aes128ecb_decrypt_cryptography()\n"
     "    except Exception:\n        pass\n\n    try:\n"
     "        return get_aes128ecb_decrypt_javax()\n"
     "    except Exception:\n        pass\n\n    try:\n"
     "        return get_aes128ecb_decrypt_openssl()\n"
     "    except Exception:\n        pass\n\n",
     "    for provider in (get_aes128ecb_decrypt_cryptography,\n"
     "                     get_aes128ecb_decrypt_javax,\n"
     "                     get_aes128ecb_decrypt_openssl):\n"
     "        try:\n            return provider()\n"
     "        except Exception:\n            continue\n\n"),
    ('result of wait', XL,
     "        p = subprocess.Popen(args)\n        p.wait()\n"
     "        return p.returncode == 0",
     "        return not subprocess.Popen(args).wait()"),
    ('failure first', XP,
     "        p = Popen(cmd)\n        p.wait()\n"
     "        if p.returncode == 0:\n            return dict()\n"
     "        else:\n"
     "            raise CalledProcessError(p.returncode, cmd)",
     "        p = Popen(cmd)\n        code = p.wait()\n        if code:\n"
     "            raise CalledProcessError(code, cmd)\n        return {}"),
    ('check in a helper', XP, [
        ("        p = Popen(cmd)\n        p.wait()\n"
         "        if p.returncode == 0:\n            return dict()\n"
         "        else:\n"
         "            raise CalledProcessError(p.returncode, cmd)",
         "        p = Popen(cmd)\n        p.wait()\n"
         "        check(p, cmd)\n        return dict()"),
        ("def xslt_compile(", "def check(p, cmd):\n"
         "    if p.returncode != 0:\n"
         "        raise CalledProcessError(p.returncode, cmd)\n\n\n"
         "def xslt_compile(")]),
    ('validation result in a variable', L,
     "                if not self.validate_stream(f):\n"
     "                    raise ValidationFailed('RelaxNG')\n"
     "                f.seek(0)\n"
     "                shutil.copyfileobj(f, output)",
     "                valid = self.validate_stream(f)\n"
     "                if valid:\n                    f.seek(0)\n"
     "                    shutil.copyfileobj(f, output)\n"
     "                else:\n"
     "                    raise ValidationFailed('RelaxNG')"),
    ('copy in a helper', XL, [
        ("                f.seek(0)\n"
         "                shutil.copyfileobj(f, output)",
         "                self.pass_on(f, output)"),
        ("    def validate(self, input):",
         "    def pass_on(self, f, output):\n        f.seek(0)\n"
         "        shutil.copyfileobj(f, output)\n\n"
         "    def validate(self, input):")]),
    ('is_enabled without a cache', XP,
     "    global enabled\n    if enabled is None:\n"
     "        enabled = xslt_reachable()\n    return enabled",
     "    if enabled is not None:\n        return enabled\n"
     "    return xslt_reachable()"),
    ('parameters in a list', XP,
     "        self.cmd = [executable]\n"
     "        for name, value in params.items():\n"
     "            self.cmd.extend(['--stringparam', name, value])",
     "        options = []\n        for name in params:\n"
     "            options += ['--stringparam', name, params[name]]\n"
     "        self.cmd = [executable] + options"),
    ('lookup by try', G, [
        ("        if child:\n            if child.num_children() == -1:\n"
         "                return OleStreamItem(self.gsfole, name)\n"
         "            else:\n                return OleStorage(child)\n"
         "        else:\n            raise KeyError(name)",
         "        if not child:\n            raise KeyError(name)\n"
         "        if child.num_children() == -1:\n"
         "            return OleStreamItem(self.gsfole, name)\n"
         "        return OleStorage(child)")]),
    ('seek by a table', G,
     "        if whence == 0:\n            whence = SeekType.SET\n"
     "        elif whence == 1:\n            whence = SeekType.CUR\n"
     "        elif whence == 2:\n            whence = SeekType.END\n"
     "        else:\n            raise ValueError(whence)\n",
     "        whences = {0: SeekType.SET, 1: SeekType.CUR, "
     "2: SeekType.END}\n        if whence not in whences:\n"
     "            raise ValueError(whence)\n"
     "        whence = whences[whence]\n"),
    ('renamed argument', XP,
     "def xslt(xsl_path, inp_path, out_path):\n    xslt = XSLT(xsl_path)\n"
     "    return xslt.transform(inp_path, out_path)",
     "def xslt(stylesheet, source, target):\n"
     "    return XSLT(stylesheet).transform(source, target)"),
    ('settings by a function', 'hwp5/cli.py', [
        ("        xsltproc.executable = os.environ['PYHWP_XSLTPROC']\n"
         "        xsltproc.enable()",
         "        use(xsltproc, os.environ['PYHWP_XSLTPROC'])"),
        ("        xmllint.executable = os.environ['PYHWP_XMLLINT']\n"
         "        xmllint.enable()\n",
         "        use(xmllint, os.environ['PYHWP_XMLLINT'])\n\n\n"
         "def use(module, executable):\n"
         "    module.executable = executable\n    module.enable()\n")]),
]
