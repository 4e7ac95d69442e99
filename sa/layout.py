# -*- coding: utf-8 -*-
"""Static extraction of the declarative binary model: record models, structs,
member lists, bit fields, enumerations, registries.

The member list of a struct class is what its `attributes` generator yields;
it is obtained by walking that generator's flow graph with constant
propagation (helpers, loops over constants and closures resolved)."""
import ast

from .prog import ClassInfo, AnalysisError
from .flow import Walker, Frame, Budget
from .terms import (T, Term, const, is_const, show, canon, NONE, subterms,
                    mk_not)

DATAIO = 'hwp5.dataio'


def strip_pure(t):
    return t


class Layout:
    def __init__(self, prog):
        self.prog = prog
        self.problems = []
        d = prog.modules[DATAIO]
        self.ctors = {}
        for nm in ('Primitive', 'Flags', 'Enum'):
            f = prog.find_func(DATAIO, nm)
            if f is None:
                raise AnalysisError('hwp5.dataio.%s not found' % nm)
            self.ctors[f] = nm
        self.arrays = {}
        for nm in ('FixedArrayType', 'VariableLengthArrayType', 'X_ARRAY',
                   'SelectiveType', 'HexBytes', 'StructType'):
            c = prog.cls(DATAIO, nm)
            if c is None:
                raise AnalysisError('hwp5.dataio.%s not found' % nm)
            self.arrays[c] = nm
        self.struct_meta = prog.cls(DATAIO, 'StructType')
        self.prim_meta = prog.cls(DATAIO, 'PrimitiveType')
        self.types = {}
        self.terms = {}     # canonical text -> term

    # ------------------------------------------------------------------
    def inline(self, f, w):
        return f not in self.ctors

    def walker(self):
        w = Walker(self.prog, inline=self.inline, max_depth=8, unroll=64)
        return w

    def is_struct(self, ci):
        m = self.prog.metaclass(ci)
        return m is not None and (m is self.struct_meta or
                                  self.struct_meta in self.prog.mro(m))

    def is_primitive(self, ci):
        m = self.prog.metaclass(ci)
        if m is not None and (m is self.prim_meta or
                              self.prim_meta in self.prog.mro(m)):
            return True
        # class X(UINT16): base is a module-level Primitive(...)
        return self.prim_base(ci) is not None

    def prim_base(self, ci):
        for b in ci.node.bases:
            for e in self.prog.resolve_expr(ci.module, b):
                if e[0] == 'expr':
                    w = self.walker()
                    t = w.global_expr(e[1], e[2], '?')
                    r = self.ctor(t)
                    if r and r[0] == 'Primitive':
                        return t
        return None

    def struct_classes(self):
        return [c for c in self.prog.classes
                if self.is_struct(c) and c.name not in ('NewBase',)]

    # ------------------------------------------------------------------
    def unwrap(self, t):
        while t.op in ('gval', 'cval'):
            t = t.args[2]
        return t

    def ctor(self, t):
        t = self.unwrap(t)
        if t.op == 'res' and t.args[1].op == 'func' and \
                t.args[1].args[0] in self.ctors:
            return self.ctors[t.args[1].args[0]], t.args[2], dict(t.args[3])
        return None

    def own_members(self, ci):
        """members yielded by the class's own `attributes`, or None"""
        bs = ci.members.get('attributes')
        if not bs:
            return None
        fis = [b.value for b in bs if b.kind == 'func']
        if not fis:
            # attributes = helper(...)?
            w = self.walker()
            v = w.class_expr(ci, bs[-1].value, 'attributes') \
                if bs[-1].kind == 'expr' else None
            if v is None:
                self.problems.append((ci, 'attributes not resolvable'))
                return None
            return self.members_of_callable(w, v, [T('class', ci)])
        fi = fis[-1]
        w = self.walker()
        args = {}
        if fi.params and not w.is_static(fi):
            args[fi.params[0]] = T('class', ci)
        return self.collect(w, fi, args)

    def collect(self, w, fi, args, frame=None):
        out = []
        layout = self
        fr = Frame(fi, parent=frame)
        fr.cls = fi.cls

        def cb(v):
            m = layout.member(w, v)
            m['node'] = len(w.g.nodes)
            conds = []
            out.append(m)
            w.node('member', None, name=m['name'])
            m['nid'] = len(w.g.nodes) - 1
            return NONE
        if w.cur is None:
            w.start()
        if fi.is_generator:
            fr.yield_cb = cb
        w.frames.append(fr)
        from .flow import Ctx
        w.ctx.append(Ctx('frame', frame=fr))
        for k, v in args.items():
            w.st.v[('v', fr.id, k)] = v
        for p in fi.params:
            if ('v', fr.id, p) not in w.st.v:
                w.st.v[('v', fr.id, p)] = T('sym', p)
        w.body_of(fi)
        w.ctx.pop()
        w.frames.pop()
        rets = fr.returns
        w.merge([(e, s) for e, s, v in rets])
        if not fi.is_generator:
            # returns an iterable of members
            vals = [v for e, s, v in rets]
            if len(vals) == 1:
                self.members_from_value(w, vals[0], out)
            else:
                self.problems.append((fi, 'several member lists'))
        for n in w.g.nodes:
            if n.kind == 'branch' or (n.kind == 'loop'):
                self.problems.append(
                    (fi, 'member list depends on a run-time condition: %s' %
                     show(n.get('cond') or n.get('iter'))))
        return out

    def members_from_value(self, w, v, out):
        el = w.const_elems(v)
        if el is None and v.op == 'gencall':
            from .flow import Frame as F
            fi = v.args[0]
            args = dict(zip(fi.params, v.args[1]))
            args.update(dict(v.args[2]))
            w.frames.append(Frame(None, module=fi.module))
            out.extend(self.collect(w, fi, args))
            w.frames.pop()
            return
        if el is None:
            self.problems.append((None, 'member list %s' % show(v)))
            return
        for x in el:
            out.append(self.member(w, x))

    def members_of_callable(self, w, v, selfargs):
        if v.op == 'func' or v.op == 'bound':
            fi = v.args[0] if v.op == 'func' else v.args[1]
            parent = w._closures().get(v.args[1]) if v.op == 'func' else None
            args = {}
            if fi.params:
                args[fi.params[0]] = selfargs[0]
            return self.collect(w, fi, args, frame=parent)
        if v.op == 'pure' and v.args[0].op == 'ext' and \
                v.args[0].args[0].endswith('method'):
            return self.members_of_callable(w, v.args[1][0], selfargs)
        self.problems.append((None, 'attributes = %s' % show(v)))
        return None

    # ------------------------------------------------------------------
    def member(self, w, v):
        m = {}
        if v.op in ('tuple', 'list') and len(v.args) >= 2:
            m = {'type': v.args[0], 'name': v.args[1]}
        elif v.op == 'dict':
            for k, x in v.args:
                m[k.args[0] if is_const(k) else '*'] = x
        else:
            return {'name': '?', 'type': show(v), 'raw': v}
        r = {}
        nm = m.get('name')
        r['name'] = nm.args[0] if nm is not None and is_const(nm) \
            else show(nm) if nm is not None else None
        r['type'] = self.type_of(w, m.get('type')) if 'type' in m else None
        if 'version' in m:
            ver = m['version']
            if ver.op == 'tuple' and all(is_const(x) for x in ver.args):
                r['version'] = [x.args[0] for x in ver.args]
            else:
                r['version'] = show(canon(ver))
        if 'condition' in m:
            t = self.func_term(w, m['condition'])
            r['condition'] = bool_text(t)
            self.terms[r['condition']] = simp(canon(t))
        for k in m:
            if k not in ('name', 'type', 'version', 'condition'):
                r['extra_' + str(k)] = show(canon(m[k])) \
                    if isinstance(m[k], Term) else str(m[k])
        return r

    def func_text(self, w, f):
        """canonical text of a (context, values) function"""
        t = simp(canon(self.func_term(w, f)))
        self.terms[show(t)] = t
        return show(t)

    def func_term(self, w, f):
        try:
            keep = (w.cur, w.st.copy(), len(w.g.nodes))
            g, cur = w.g, w.cur
            from .flow import Graph
            w.g = Graph()
            st = w.st.copy()
            w.start()
            pushed = False
            if not w.frames:
                raise AnalysisError('no frame')
            v = w.call(f, [T('sym', 'context'), T('sym', 'values')], {},
                       None)
            w.last_func_graph = w.g
            w.g, w.cur, w.st = g, cur, st
            return v
        except RecursionError:
            raise

    def type_of(self, w, t):
        t0 = t
        t = self.unwrap(t)
        if t.op == 'class' and isinstance(t.args[0], ClassInfo):
            ci = t.args[0]
            if self.is_struct(ci):
                return 'struct ' + ci.name
            if self.is_primitive(ci):
                return 'type ' + ci.name
            return 'class ' + ci.name
        c = self.ctor(t)
        if c:
            return self.ctor_type(w, t0, *c)
        if t.op == 'inst' and t.args[0] in self.arrays:
            return self.array_type(w, t)
        if t.op == 'inst':
            for a, k in self.ctor_args(w, t):
                return {'inst': t.args[0].name,
                        'args': [self.k(x) for x in a] +
                        ['%s=%s' % (n, self.k(x)) for n, x in k]}
        return 'unknown ' + show(canon(t))

    def ctor_type(self, w, t0, kind, args, kw):
        if kind == 'Primitive':
            base = show(args[1])
            return {'primitive': self.k(args[0]), 'binfmt': self.k(args[2]),
                    'base': base}
        if kind == 'Enum':
            items = {}
            for i, a in enumerate(args):
                items[self.k(a)] = i
            for k, v in kw.items():
                items[k] = self.k(v)
            return {'enum': items}
        if kind == 'Flags':
            return self.flags_type(w, args)

    def k(self, t):
        if is_const(t):
            return t.args[0]
        return show(canon(t))

    def flags_type(self, w, args):
        base = self.type_of(w, args[0])
        fields = []
        i = 1
        n = len(args)

        def is_int(a):
            return is_const(a) and isinstance(a.args[0], int)

        def is_str(a):
            return is_const(a) and isinstance(a.args[0], str)
        bad = False
        while i < n:
            if not is_int(args[i]):
                bad = True
                break
            lsb = args[i].args[0]
            i += 1
            msb = lsb
            if i < n and is_int(args[i]):
                msb = args[i].args[0]
                i += 1
            ty = 'int'
            if i < n and not is_str(args[i]):
                if is_int(args[i]):
                    bad = True
                    break
                ty = self.type_of(w, args[i])
                if ty == 'unknown bool':
                    ty = 'bool'
                i += 1
            if i < n and is_str(args[i]):
                fields.append([args[i].args[0], lsb, msb, ty])
                i += 1
            else:
                bad = True
                break
        r = {'flags': base, 'fields': sorted(
            fields, key=lambda f: (f[1], f[2], f[0]))}
        if bad:
            r['malformed'] = [show(canon(a)) for a in args]
        return r

    def array_type(self, w, t):
        kind = self.arrays[t.args[0]]
        args = None
        for a, k in self.ctor_args(w, t):
            args, kw = a, dict(k)
        if args is None:
            return 'unknown array'
        if kind == 'FixedArrayType':
            a = self.named(args, kw, ('itemtype', 'size'))
            return {'array': self.type_of(w, a[0]), 'size': self.k(a[1])}
        if kind == 'VariableLengthArrayType':
            a = self.named(args, kw, ('counttype', 'itemtype'))
            return {'narray': self.type_of(w, a[1]),
                    'count': self.type_of(w, a[0])}
        if kind == 'X_ARRAY':
            a = self.named(args, kw, ('itemtype', 'count_reference'))
            return {'xarray': self.type_of(w, a[0]),
                    'count': self.func_text(w, a[1])}
        if kind == 'HexBytes':
            a = self.named(args, kw, ('size',))
            return {'hexbytes': self.k(a[0])}
        if kind == 'SelectiveType':
            a = self.named(args, kw, ('selector_reference', 'selections'))
            sel = a[1]
            out = {}
            if sel.op == 'dict':
                for k, v in sel.args:
                    out[self.enum_item(w, k)] = self.type_of(w, v)
            else:
                out = show(sel)
            return {'select': self.func_text(w, a[0]), 'cases': out}
        if kind == 'StructType':
            name = self.k(args[0])
            attrs = args[2] if len(args) > 2 else None
            mem = None
            if attrs is not None and attrs.op == 'dict':
                for k, v in attrs.args:
                    if is_const(k) and k.args[0] == 'attributes':
                        if v.op == 'pure' and v.args[1]:
                            v = v.args[1][0]
                        if v.op == 'func':
                            parent = w._closures().get(v.args[1])
                            mem = self.collect_sub(w, v.args[0], parent)
            return {'struct': name, 'members': [clean(m) for m in mem or []]}
        return 'unknown'

    def enum_item(self, w, t):
        """case key: NAME=value for enum members"""
        if is_const(t):
            return repr(t.args[0])
        if t.op == 'attr':
            ty = self.type_of(w, t.args[0])
            if isinstance(ty, dict) and t.args[1] in ty.get('enum', {}):
                return '%s' % ty['enum'][t.args[1]]
        c = self.unwrap(t)
        return show(canon(c))

    def collect_sub(self, w, fi, parent):
        g, cur, st = w.g, w.cur, w.st.copy()
        from .flow import Graph
        w.g = Graph()
        w.start()
        ctx = w.ctx
        w.ctx = []
        r = self.collect(w, fi, {}, frame=parent)
        w.ctx = ctx
        w.g, w.cur, w.st = g, cur, st
        return r

    def ctor_args(self, w, t):
        ca = self.prog.__dict__.get('ctor_args', {})
        if t in ca:
            yield ca[t]

    @staticmethod
    def named(args, kw, names):
        out = list(args)
        for nm in names[len(args):]:
            out.append(kw.get(nm, NONE))
        return out

    # ------------------------------------------------------------------
    def class_const(self, ci, name, own=True):
        """value term of a class attribute (own dict only by default)"""
        bs = ci.members.get(name)
        if not bs:
            return None
        w = self.walker()
        b = bs[-1]
        if b.kind == 'expr':
            return w.class_expr(ci, b.value, name)
        if b.kind == 'class':
            return T('class', b.value)
        if b.kind == 'func':
            return T('func', b.value, 0)
        return None



def clean(m):
    return {k: v for k, v in m.items() if k not in ('node', 'nid', 'raw')}


def simp(t):
    """light boolean normalisation of condition terms"""
    if isinstance(t, tuple):
        return tuple(simp(x) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op in ('const', 'sym', 'ext', 'class', 'func'):
        return t
    args = [simp(a) for a in t.args]
    if t.op == 'ite':
        c, a, b = args
        if is_const(a) and is_const(b) and a.args[0] is True and \
                b.args[0] is False:
            return c
        if is_const(a) and is_const(b) and a.args[0] is False and \
                b.args[0] is True:
            from .terms import mk_not
            return mk_not(c)
    if t.op == 'pure' and args[0].op == 'ext' and \
            args[0].args[0] == 'builtins.bool' and len(args[1]) == 1:
        return args[1][0]
    return T(t.op, *args)


def formula(t):
    """(boolean tree over named atoms, evaluator)"""
    atoms = {}

    def atom(x, pol=True):
        if x.op == 'not':
            return atom(x.args[0], not pol)
        if x.op == 'cmp' and x.args[0] in ('!=', 'is not', 'not in', '>=',
                                           '<='):
            return atom(mk_not(x), not pol)
        if x.op == 'cmp' and x.args[0] in ('==', 'is') and \
                show(x.args[2]) < show(x.args[1]) and \
                not is_const(x.args[2]):
            x = T('cmp', x.args[0], x.args[2], x.args[1])
        atoms.setdefault(show(x), None)
        return ('atom', show(x), pol)

    def build(x):
        if is_const(x):
            return ('const', bool(x.args[0]))
        if x.op == 'ite':
            return ('ite', build(x.args[0]), build(x.args[1]),
                    build(x.args[2]))
        if x.op in ('and', 'or'):
            return (x.op,) + tuple(build(y) for y in x.args)
        if x.op == 'not':
            return ('not', build(x.args[0]))
        if x.op == 'pure' and x.args[0] is T('ext', 'builtins.bool'):
            return build(x.args[1][0])
        return atom(x)
    return build(t), atoms


def ev(n, env):
    k = n[0]
    if k == 'const':
        return n[1]
    if k == 'atom':
        return env[n[1]] == n[2]
    if k == 'not':
        return not ev(n[1], env)
    if k == 'and':
        return all(ev(x, env) for x in n[1:])
    if k == 'or':
        return any(ev(x, env) for x in n[1:])
    return ev(n[2], env) if ev(n[1], env) else ev(n[3], env)


def implies(facts, goal):
    """facts: [(term, polarity)]; goal: term"""
    import itertools
    trees = [(formula(simp(canon(f))), p) for f, p in facts]
    gt, ga = formula(simp(canon(goal)))
    names = set(ga)
    for (t, a), p in trees:
        names |= set(a)
    names = sorted(names)
    if len(names) > 12:
        return False
    for vs in itertools.product((False, True), repeat=len(names)):
        env = dict(zip(names, vs))
        if all(ev(t, env) == p for (t, a), p in trees) and not ev(gt, env):
            return False
    return True


def bool_text(t):
    """canonical form of a truth-valued term: the irredundant set of minterms
    over its atoms"""
    t = simp(canon(t))
    tree, atoms = formula(t)
    names = sorted(atoms)
    if len(names) > 8:
        return show(t)
    import itertools

    def table(ns, fixed):
        return [ev(tree, dict(zip(ns, vs), **fixed))
                for vs in itertools.product((False, True), repeat=len(ns))]
    for a in list(names):
        rest = [x for x in names if x != a]
        if table(rest, {a: False}) == table(rest, {a: True}):
            names = rest
            tree = _fix(tree, a)
    out = []
    for vs in itertools.product((False, True), repeat=len(names)):
        env = dict(zip(names, vs))
        if ev(tree, env):
            out.append(' & '.join(('' if v else '!') + n
                                  for n, v in zip(names, vs)))
    if not names:
        return 'always' if out else 'never'
    return ' | '.join(sorted(out))


def _fix(n, a):
    if n[0] == 'atom':
        return ('const', n[2] is False) if n[1] == a else n
    if n[0] == 'const':
        return n
    return (n[0],) + tuple(_fix(x, a) for x in n[1:])
