# -*- coding: utf-8 -*-
"""Interprocedural value-flow / control-flow graph construction.

`Walker` turns a function of the analysed program into a control-flow graph
whose nodes carry resolved callees and hash-consed value terms (gated SSA:
if-merges become `ite`, loop-carried variables become `loopvar`, other merges
`phi`).  Repository helpers are inlined by policy, generators consumed by a
`for` loop are inlined as co-routines, `with` over a @contextmanager likewise,
try/except/finally get explicit exception edges.  States are joined at every
merge point: this is a dataflow analysis over the source text, nothing is
executed.
"""
import ast

from . import mutation
from .prog import ClassInfo, FuncInfo, AnalysisError, const_py3_test
from .terms import (T, Term, const, NONE, TRUE, FALSE, UNBOUND, TOP, is_const,
                    cval, mk_not, ite, phi, show)

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
          ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&',
          ast.BitXor: '^', ast.MatMult: '@'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in'}

# builtins whose result depends only on argument values and that do not raise
# on the values they get here
PURE = {'len', 'isinstance', 'issubclass', 'hasattr', 'type', 'str', 'repr',
        'bool', 'tuple', 'list', 'dict', 'set', 'frozenset', 'sorted', 'zip',
        'enumerate', 'range', 'reversed', 'min', 'max', 'abs', 'sum', 'hex',
        'chr', 'ord', 'iter', 'callable', 'id', 'divmod', 'bytes', 'int',
        'float', 'bytearray', 'map', 'filter', 'any', 'all', 'super',
        'object', 'slice', 'getattr', 'print', 'locals', 'globals', 'vars',
        'hash', 'format', 'round', 'bin', 'oct', 'property', 'classmethod',
        'staticmethod', 'delattr', 'setattr', 'Exception'}
# of those, the ones emitted as nodes because rules look at them
NODED = {'print', 'getattr', 'setattr', 'delattr', 'iter', 'int', 'ord',
         'chr', 'float', 'bytes'}


class Node:
    __slots__ = ('id', 'kind', 'd', 'succ', 'pred', 'loc', 'func', 'stack',
                 'ast')

    def __init__(self, nid, kind, d, loc, func, stack, astnode):
        self.id = nid
        self.kind = kind
        self.d = d
        self.succ = []      # (node id, label)
        self.pred = []
        self.loc = loc
        self.func = func
        self.stack = stack
        self.ast = astnode

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __repr__(self):
        return '<%d %s %s @%s>' % (self.id, self.kind, {
            k: v for k, v in self.d.items()}, self.loc)


class State:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = {} if v is None else v

    def copy(self):
        return State(dict(self.v))


def join_states(states, cond=None):
    """states: list of State. With cond and exactly two states, gated merge
    (state 0 under cond, state 1 under not cond)."""
    if len(states) == 1:
        return states[0].copy()
    out = {}
    keys = set()
    for s in states:
        keys.update(s.v)
    for k in keys:
        vals = [s.v.get(k, UNBOUND) for s in states]
        first = vals[0]
        if all(x is first for x in vals):
            out[k] = first
        elif k[0] == 'h' and any(x is UNBOUND for x in vals):
            # heap slot unknown on one side: its initial value
            init = T('attr', k[1], k[2]) if isinstance(k[2], str) \
                else T('sub', k[1], k[2])
            vals = [init if x is UNBOUND else x for x in vals]
            out[k] = ite(cond, vals[0], vals[1]) \
                if cond is not None and len(vals) == 2 else phi(vals)
        elif cond is not None and len(vals) == 2:
            out[k] = ite(cond, vals[0], vals[1])
        else:
            out[k] = phi(vals)
    return State(out)


class Graph:
    def __init__(self):
        self.nodes = []
        self.loopvars = {}
        self.entry = None
        self.truncated = False
        self.sel = {}           # (src, label) -> {phi term: value}
        self.sel_points = {}    # phi term -> set of edge sets

    def edge(self, a, b, label):
        self.nodes[a].succ.append((b, label))
        self.nodes[b].pred.append((a, label))

    def by_kind(self, *kinds):
        return [n for n in self.nodes if n.kind in kinds]

    def calls(self, pred=None):
        return [n for n in self.nodes if n.kind == 'call' and
                (pred is None or pred(n))]


class Frame:
    _n = 0

    def __init__(self, func, self_cls=None, parent=None, module=None):
        Frame._n += 1
        self.id = Frame._n
        self.func = func          # FuncInfo or None (module/class level)
        self.module = module or func.module
        self.parent = parent      # lexically enclosing Frame
        self.self_cls = self_cls
        self.returns = []         # (edges, state, value)
        self.yield_cb = None
        self.cls = func.cls if func is not None else None


class Budget(Exception):
    pass


class Ctx:
    """control context: 'loop', 'except', 'finally', 'frame'"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Walker:
    attr_guard = False

    def __init__(self, prog, inline=None, max_depth=6, max_nodes=30000,
                 unroll=80, opaque_consts=None, inline_gens=None):
        """inline: predicate (FuncInfo, walker) -> bool for repo functions
        inline_gens: predicate for generator functions used in a for loop"""
        self.prog = prog
        self.inline = inline or (lambda f, w: False)
        self.inline_gens = inline_gens or self.inline
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.unroll = unroll
        self.opaque_consts = opaque_consts or (lambda *a: False)
        self.g = Graph()
        self.cur = None           # list of (src, label) or None if dead
        self.st = State()
        self.ctx = []
        self.frames = []
        self.dry = 0
        self.raise_cb = None
        self._globals_busy = set()
        self.exits = {}
        Walker._serial += 1
        self.serial = Walker._serial * 1000000

    # ------------------------------------------------------------ plumbing
    @property
    def frame(self):
        return self.frames[-1]

    def node(self, kind, astnode=None, may_raise=False, **d):
        if self.cur is None:
            return None
        if len(self.g.nodes) > self.max_nodes:
            raise Budget('node budget exceeded')
        fr = self.frames[-1] if self.frames else None
        func = fr.func if fr else None
        mod = fr.module if fr else None
        line = getattr(astnode, 'lineno', None)
        loc = '%s:%s' % (mod.relpath if mod else '?', line)
        stack = tuple(f.func.fullname if f.func else f.module.name
                      for f in self.frames)
        n = Node(len(self.g.nodes), kind, d, loc, func, stack, astnode)
        self.g.nodes.append(n)
        for src, label in self.cur:
            self.g.edge(src, n.id, label)
        self.cur = [(n.id, 'next')]
        if may_raise:
            self.route_exc(n.id, 'exc', self.st, may_raise)
        return n

    def route_exc(self, nid, label, state, exc):
        """add an exception edge from nid to the innermost exception context.
        exc: True (any Exception) or a Term of the raised class/instance or
        'base' (BaseException only)"""
        for c in reversed(self.ctx):
            if c.kind in ('except', 'finally', 'exccatch'):
                c.exc.append(([(nid, label)], state.copy(), exc))
                return
        self.exits.setdefault('raise', []).append(
            ([(nid, label)], state.copy(), exc))

    def jump(self, kind, value=None, target=None):
        """return / break / continue, through finally contexts"""
        if self.cur is None:
            return
        for c in reversed(self.ctx):
            if c.kind == 'finally':
                c.pending.append((kind, value, target, self.cur,
                                  self.st.copy()))
                self.cur = None
                return
            if kind == 'return' and c.kind == 'frame' and c.frame is target:
                c.frame.returns.append((self.cur, self.st.copy(), value))
                self.cur = None
                return
            if kind in ('break', 'continue') and c.kind == 'loop' and \
                    c.owner is target:
                getattr(c, kind + 's').append((self.cur, self.st.copy()))
                self.cur = None
                return
        raise AnalysisError('no target for %s' % kind)

    def merge(self, items, cond=None):
        """items: list of (edges, state); sets cur/st"""
        items = [i for i in items if i[0]]
        if not items:
            self.cur = None
            return
        cur = []
        for e, s in items:
            cur.extend(e)
        if cond is not None and len(items) == 2:
            st = join_states([items[0][1], items[1][1]], cond)
        else:
            st = join_states([s for e, s in items])
            if len(items) > 1:
                for k, v in st.v.items():
                    if v.op == 'phi' and any(s.v.get(k) is not v
                                             for e, s in items):
                        self.record_phi(v, [(e, s.v.get(k))
                                            for e, s in items])
        self.cur = cur
        self.st = st

    def record_phi(self, term, choices):
        if term.op != 'phi':
            return
        pts = frozenset(tuple(x) for e, v in choices for x in e)
        old = self.g.sel_points.setdefault(term, set())
        if old and any(v is term for e, v in choices):
            # the value chosen before is merged once more
            pts = pts.union(*old)
            old.clear()
        old.add(pts)
        for e, v in choices:
            if v is None or v is term:
                continue
            for x in e:
                d = self.g.sel.setdefault(tuple(x), {})
                if term in d and d[term] is not v:
                    d[term] = None
                else:
                    d[term] = v

    # ----------------------------------------------------------- variables
    def lookup_frame(self, frame, name):
        f = frame
        while f is not None:
            if f.func is not None and name in f.func.local_names:
                return f
            if f.func is None and getattr(f, 'is_classbody', False) and \
                    ('v', f.id, name) in self.st.v:
                return f
            f = f.parent
        return None

    def load(self, name, astnode=None):
        fr = self.lookup_frame(self.frame, name)
        if fr is not None:
            v = self.st.v.get(('v', fr.id, name))
            if v is not None and v is not UNBOUND:
                return v
            # nested def/class/import not walked (closure analysed alone)
            inner = getattr(fr.func, 'inner', {}).get(name) \
                if fr.func else None
            if inner and v is None and fr is not self.frame:
                return self.from_entities(
                    [e for b in inner for e in
                     self.prog.resolve_binding(fr.module, b)], fr.module,
                    '%s.%s' % (fr.func.qualname, name))
            return T('sym', name) if v is None else UNBOUND
        return self.load_global(self.frame.module, name)

    def store(self, name, val):
        fr = self.lookup_frame(self.frame, name) or self.frame
        if self.frame.func is not None and \
                name in (self.frame.func.local_names, self.frame.func._globals)[1]:
            self.node('gstore', None, name=name, value=val)
            self.rebind(self.frame.module, name, val)
            return
        self.st.v[('v', fr.id, name)] = val

    _serial = 0

    def rebind(self, module, name, val):
        if (module.name, name) in rebound(self.prog):
            self.st.v[('v', '<module>', (module.name, name))] = val

    def load_global(self, module, name):
        v = self.st.v.get(('v', '<module>', (module.name, name)))
        if v is not None:
            return v
        t = self.import_time(module, name)
        if (module.name, name) in rebound(self.prog) and \
                t.op not in ('gval', 'func', 'class', 'module'):
            t = T('gval', module.name, name, t)
        return t

    def import_time(self, module, name):
        cache = module.__dict__.setdefault('_globals_cache', {})
        if name in cache:
            return cache[name]
        ents = self.prog.lookup(module, name)
        if not ents:
            if name in ('__name__',):
                return const(module.name)
            from .prog import BUILTINS
            if name in BUILTINS:
                t = T('ext', 'builtins.' + name)
            else:
                t = T('undef', module.name, name)
            return t
        t = self.from_entities(ents, module, name)
        cache[name] = t
        return t

    def from_entities(self, ents, module, name=None):
        vals = []
        for e in ents:
            if e[0] == 'func':
                vals.append(self.decorated(e[1]))
            elif e[0] == 'class':
                vals.append(T('class', e[1]))
            elif e[0] == 'module':
                vals.append(T('module', e[1]))
            elif e[0] == 'ext':
                vals.append(T('ext', e[1]))
            elif e[0] == 'missing':
                vals.append(T('undef', e[1].rpartition('.')[0],
                              e[1].rpartition('.')[2]))
            elif e[0] == 'expr':
                vals.append(self.global_expr(e[1], e[2], name))
            elif e[0] == 'term':
                vals.append(e[1])
            else:
                vals.append(T('global', e[1].name, name or '?'))
        # alternatives that come from failed imports
        vals2 = [v for v in vals if v.op != 'undef'] or vals
        return phi(vals2)

    def global_expr(self, module, expr, name):
        """value of a module-level assignment right-hand side"""
        key = (module.name, id(expr))
        if key in self._globals_busy:
            return T('global', module.name, name or '?')
        self._globals_busy.add(key)
        try:
            # the value does not depend on who asks: fixed inlining rule
            sub = Walker(self.prog, inline=declarative,
                         max_depth=self.max_depth, max_nodes=4000,
                         unroll=self.unroll, inline_gens=self.inline_gens)
            sub._globals_busy = self._globals_busy
            fr = Frame(None, module=module)
            sub.frames = [fr]
            sub.start()
            v = sub.eval(expr)
            if any(x.op in ('res',) for x in _sub(v)) or is_empty(v):
                # value produced by an opaque call made at import time, or a
                # container that is filled later
                return T('gval', module.name, name or '?', v)
            return v
        except Budget:
            return T('global', module.name, name or '?')
        finally:
            self._globals_busy.discard(key)

    def decorated(self, fi, frame=None):
        base = T('func', fi, frame.id if frame else 0)
        if frame is not None:
            self._closures()[frame.id] = frame
        if fi.is_lambda or not fi.decorators:
            return base
        v = base
        for d in reversed(fi.decorators):
            names = [e[1] for e in self.prog.resolve_expr(
                fi.module, d.func if isinstance(d, ast.Call) else d,
                fi.parent) if e[0] == 'ext']
            if any(n in ('builtins.staticmethod', 'builtins.classmethod',
                         'builtins.property', 'contextlib.contextmanager',
                         'functools.wraps') for n in names):
                continue
            v = T('decorated', v, ast.unparse(d))
        if v is not base:
            return v
        return base

    def _closures(self):
        if not hasattr(self.prog, '_closure_frames'):
            self.prog._closure_frames = {}
        return self.prog._closure_frames

    # ------------------------------------------------------------- entries
    def start(self):
        n = Node(len(self.g.nodes), 'entry', {}, '', None, (), None)
        self.g.nodes.append(n)
        if self.g.entry is None:
            self.g.entry = n.id
        self.cur = [(n.id, 'next')]

    def run(self, fi, self_cls=None, args=None, closure=None):
        """build the graph of one function; returns Graph"""
        fr = Frame(fi, self_cls=self_cls, parent=closure)
        p = fi.parent
        if closure is None and p is not None:
            # pseudo frames for enclosing functions
            chain = []
            while p is not None:
                chain.append(p)
                p = p.parent
            par = None
            for pf in reversed(chain):
                par = Frame(pf, parent=par)
            fr.parent = par
        self.start()
        self.frames.append(fr)
        for mn, nm in rebound(self.prog):
            m = self.prog.modules[mn]
            self.st.v[('v', '<module>', (mn, nm))] = self.load_global(m, nm)
        self.bind_symbolic(fr, fi, self_cls, args or {})
        self.entry_frame = fr
        c = Ctx('frame', frame=fr)
        self.ctx.append(c)
        self.body_of(fi)
        self.ctx.pop()
        rets = []
        for edges, st, val in fr.returns:
            rets.append((edges, st, val))
        # exit nodes
        self.g.returns = []
        for edges, st, val in rets:
            self.cur = edges
            self.st = st
            n = self.node('exit-return', fi.node, value=val)
            n.d['state'] = st
            self.g.returns.append(n)
        for edges, st, exc in self.exits.get('raise', []):
            self.cur = edges
            self.st = st
            n = self.node('exit-raise', fi.node, exc=exc)
            n.d['state'] = st
        self.frames.pop()
        return self.g

    def body_of(self, fi):
        if fi.is_lambda:
            v = self.eval(fi.node.body)
            self.jump('return', v, self.frame)
        else:
            self.stmts(fi.node.body)
            self.jump('return', NONE, self.frame)

    def bind_symbolic(self, fr, fi, self_cls, args):
        a = fi.node.args
        pos = a.posonlyargs + a.args
        for i, x in enumerate(pos):
            if x.arg in args:
                v = args[x.arg]
            elif i == 0 and fi.cls is not None and not self.is_static(fi):
                c = self_cls or fi.cls
                if self.is_classmethod(fi):
                    v = T('class', c)
                else:
                    v = T('inst', c, 'self')
            else:
                v = T('sym', x.arg)
            self.st.v[('v', fr.id, x.arg)] = v
        for x in a.kwonlyargs:
            self.st.v[('v', fr.id, x.arg)] = args.get(x.arg,
                                                      T('sym', x.arg))
        if a.vararg:
            self.st.v[('v', fr.id, a.vararg.arg)] = args.get(
                a.vararg.arg, T('sym', '*' + a.vararg.arg))
        if a.kwarg:
            self.st.v[('v', fr.id, a.kwarg.arg)] = args.get(
                a.kwarg.arg, T('sym', '**' + a.kwarg.arg))

    def deco_names(self, fi):
        out = set()
        for d in fi.decorators:
            if isinstance(d, ast.Attribute) and d.attr in (
                    'setter', 'getter', 'deleter'):
                out.add(d.attr)
            for e in self.prog.resolve_expr(
                    fi.module, d.func if isinstance(d, ast.Call) else d,
                    fi.parent):
                if e[0] == 'ext':
                    out.add(e[1])
                elif e[0] in ('func', 'class'):
                    out.add(e[1].name)
        return out

    def is_static(self, fi):
        if 'builtins.staticmethod' in self.deco_names(fi):
            return True
        # name = staticmethod(name) in the class body
        if fi.cls is not None:
            for b in fi.cls.members.get(fi.name, ()):
                if b.kind == 'expr' and isinstance(b.value, ast.Call) and \
                        isinstance(b.value.func, ast.Name) and \
                        b.value.func.id == 'staticmethod':
                    return True
        return False

    def is_classmethod(self, fi):
        if fi.name in ('__new__', '__init_subclass__'):
            return True
        if 'builtins.classmethod' in self.deco_names(fi):
            return True
        if fi.cls is not None:
            for b in fi.cls.members.get(fi.name, ()):
                if b.kind == 'expr' and isinstance(b.value, ast.Call) and \
                        isinstance(b.value.func, ast.Name) and \
                        b.value.func.id == 'classmethod':
                    return True
        return False

    # ----------------------------------------------------------- statements
    def stmts(self, body):
        for st in body:
            if self.cur is None:
                return
            self.stmt(st)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s:%s' % (
                type(s).__name__, self.frame.module.relpath, s.lineno))
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s):
        v = self.eval(s.value)
        if self.cur is None:
            return
        if v.op in ('list', 'dict', 'set') and isinstance(
                s.value, (ast.List, ast.Dict, ast.Set, ast.Call)) and \
                self.changes_unseen(s.targets):
            v = T('container', v.op, v, s.lineno)
        for t in s.targets:
            self.assign(t, v)

    def changes_unseen(self, targets):
        """a container bound to the targets is mutated by other code"""
        m = mutation.of(self.prog)
        for t in targets:
            if isinstance(t, ast.Attribute) and t.attr in m.attrs:
                return True
            if isinstance(t, ast.Name) and self.frame.func is not None and \
                    t.id in m.hidden(self.frame.func):
                return True
        return len(targets) > 1

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            if self.cur is not None:
                self.assign(s.target, v)

    def s_AugAssign(self, s):
        t = s.target
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
            (ast.Attribute(t.value, t.attr, ast.Load())
             if isinstance(t, ast.Attribute) else
             ast.Subscript(t.value, t.slice, ast.Load())), t)
        a = self.eval(load)
        b = self.eval(s.value)
        if self.cur is None:
            return
        self.assign(t, self.binop(BINOPS[type(s.op)], a, b))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                for e in t.elts:
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    self.assign(e2, T('unpack', v, ast.unparse(e2)))
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.item(v, i, n))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            if self.cur is None:
                return
            self.node('setitem', t, obj=o, key=k, value=v, may_raise=False)
            self.st.v[('h', o, k)] = v
            if isinstance(t.value, ast.Name) and o.op == 'dict' and \
                    (is_const(k) or k.op == 'tuple'):
                d = [(a, b) for a, b in o.args if a is not k]
                new = T('dict', *(d + [(k, v)]))
                self.store(t.value.id, new)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise AnalysisError('assign to %s' % type(t).__name__)

    def setattr(self, o, name, v, astnode):
        self.node('setattr', astnode, obj=o, attr=name, value=v)
        if o.op == 'module' and o.args[0] in self.prog.modules:
            self.rebind(self.prog.modules[o.args[0]], name, v)
        if o.op == 'inst' and isinstance(o.args[0], ClassInfo):
            for b, c in self.prog.class_attr(o.args[0], name):
                if b.kind == 'func' and 'setter' in self.deco_names(b.value) \
                        and self.inline(b.value, self):
                    self.call_func(b.value, [o, v], {}, astnode)
                    return
        self.st.v[('h', o, name)] = v

    def item(self, v, i, n=None):
        if v.op in ('tuple', 'list') and 0 <= i < len(v.args):
            return v.args[i]
        if v.op == 'ite':
            return ite(v.args[0], self.item(v.args[1], i, n),
                       self.item(v.args[2], i, n))
        if v.op == 'phi':
            subs = [x for x in v.args if not (is_const(x) and
                                              x.args[0] is None)]
            r = phi([self.item(x, i, n) for x in subs]) if subs else TOP
            if r.op == 'phi':
                # same selection as the container
                for e, d in list(self.g.sel.items()):
                    if d.get(v) is not None:
                        self.g.sel_points.setdefault(r, set()).update(
                            self.g.sel_points.get(v, ()))
                        if not (is_const(d[v]) and d[v].args[0] is None):
                            d.setdefault(r, self.item(d[v], i, n))
            return r
        if is_const(v) and isinstance(v.args[0], (str, bytes, tuple)):
            try:
                return const(v.args[0][i])
            except Exception:
                return TOP
        return T('item', v, i)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                self.node('delitem', t, obj=o, key=k, may_raise=True)
                self.st.v.pop(('h', o, k), None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.node('delattr', t, obj=o, attr=t.attr, may_raise=True)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.cur is None:
            return
        self.node('return', s, value=v)
        self.jump('return', v, self.frame)

    def s_Raise(self, s):
        if s.exc is None:
            exc = self.current_exc()
        else:
            exc = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        if self.cur is None:
            return
        n = self.node('raise', s, exc=exc)
        self.route_exc(n.id, 'exc', self.st, exc)
        self.cur = None

    def current_exc(self):
        for c in reversed(self.ctx):
            if c.kind == 'handler':
                return c.exc_term
        return T('sym', '<active exception>')

    def s_Assert(self, s):
        c = self.eval(s.test)
        if self.cur is None:
            return
        n = self.node('assert', s, cond=c, may_raise=False)
        self.route_exc(n.id, 'exc', self.st, T('ext',
                                               'builtins.AssertionError'))
        if is_const(c) and not c.args[0]:
            self.cur = None

    def s_If(self, s):
        v = const_py3_test(s.test)
        if v is not None and not isinstance(s.test, ast.Constant):
            self.stmts(s.body if v else s.orelse)
            return
        self.branch(s.test, lambda: self.stmts(s.body),
                    lambda: self.stmts(s.orelse))

    def branch(self, test, then, other):
        """evaluate test (short-circuit aware) and walk both sides"""
        cond = self.eval_cond(test)
        if self.cur is None:
            return
        if is_const(cond):
            (then if cond.args[0] else other)()
            return
        n = self.node('branch', test, cond=cond)
        st0 = self.st.copy()
        self.cur = [(n.id, 'T')]
        then()
        a = (self.cur, self.st) if self.cur is not None else None
        self.cur = [(n.id, 'F')]
        self.st = st0
        other()
        b = (self.cur, self.st) if self.cur is not None else None
        if a and b:
            self.merge([a, b], cond)
        elif a or b:
            self.cur, self.st = a or b
        else:
            self.cur = None

    def eval_cond(self, test):
        return self.truth(self.eval(test))

    def truth(self, t):
        if t.op == 'const':
            return const(bool(t.args[0]))
        if t.op in ('tuple', 'list', 'dict', 'set'):
            return const(bool(t.args))
        if t.op in ('func', 'class', 'module'):
            return TRUE
        return t

    # loops -----------------------------------------------------------------
    def s_While(self, s):
        if isinstance(s.test, ast.Constant) and not s.test.value:
            return
        self.loop(s, None)

    def s_For(self, s):
        it = self.eval(s.iter)
        if self.cur is None:
            return
        self.for_over(s, it, lambda v: self.assign(s.target, v),
                      lambda: self.stmts(s.body),
                      lambda: self.stmts(s.orelse))

    def for_over(self, s, it, bind, body, orelse):
        elems = self.const_elems(it)
        if elems is not None:
            return self.unrolled(s, elems, bind, body, orelse)
        gen = self.gen_call(it)
        if gen is not None:
            fi, res = gen
            if len(self.frames) < self.max_depth + 6 and \
                    self.inline_gens(fi, self) and \
                    not any(f.func is fi for f in self.frames):
                return self.gen_loop(s, fi, res, bind, body, orelse)
        return self.loop(s, it, bind, body, orelse)

    def const_elems(self, it):
        if it.op in ('tuple', 'list', 'set'):
            if any(x.op == 'star' for x in it.args):
                return None
            e = list(it.args)
        elif it.op == 'dict':
            if any(k is None or (isinstance(k, Term) and k.op == 'star')
                   for k, v in it.args):
                return None
            e = [k for k, v in it.args]
        elif is_const(it) and isinstance(it.args[0], (str, tuple)):
            e = [const(x) for x in it.args[0]]
        elif is_const(it) and isinstance(it.args[0], bytes):
            e = [const(x) for x in it.args[0]]
        else:
            return None
        if len(e) > self.unroll:
            return None
        return e

    def unrolled(self, s, elems, bind, body, orelse):
        lc = Ctx('loop', owner=s, breaks=[], continues=[])
        for v in elems:
            if self.cur is None:
                break
            lc.continues = []
            self.ctx.append(lc)
            bind(v)
            body()
            self.ctx.pop()
            items = list(lc.continues)
            if self.cur is not None:
                items.append((self.cur, self.st))
            self.merge(items)
        if self.cur is not None:
            orelse()
        items = list(lc.breaks)
        if self.cur is not None:
            items.append((self.cur, self.st))
        self.merge(items)

    def gen_call(self, it):
        """(FuncInfo, res term) when it denotes a call to a repo generator"""
        if it.op == 'gencall':
            return it.args[0], it
        return None

    def gen_loop(self, s, fi, res, bind, body, orelse):
        lc = Ctx('loop', owner=s, breaks=[], continues=[])
        self.ctx.append(lc)
        outer_ctx = list(self.ctx)
        outer_frames = list(self.frames)
        fid, args, kw, closure = res.args[0], res.args[1], res.args[2], \
            res.args[3]
        fr = Frame(fi, parent=self._closures().get(closure))

        def cb(v):
            saved_ctx, saved_frames = self.ctx, self.frames
            self.ctx = outer_ctx
            self.frames = list(outer_frames)
            lc.continues = []
            bind(v)
            body()
            items = list(lc.continues)
            if self.cur is not None:
                items.append((self.cur, self.st))
            self.ctx, self.frames = saved_ctx, saved_frames
            self.merge(items)
            return NONE
        fr.yield_cb = cb
        self.frames.append(fr)
        self.node('enter', s, target=fi)
        self.bind_args(fr, fi, list(args), dict(kw))
        c = Ctx('frame', frame=fr)
        self.ctx.append(c)
        self.body_of(fi)
        self.ctx.pop()
        self.frames.pop()
        self.merge([(e, st) for e, st, v in fr.returns])
        self.ctx.pop()
        if self.cur is not None:
            orelse()
        items = list(lc.breaks)
        if self.cur is not None:
            items.append((self.cur, self.st))
        self.merge(items)

    def loop(self, s, it, bind=None, body=None, orelse=None):
        """general while/for loop with widening of changed variables"""
        if body is None:
            def body():
                return self.stmts(s.body)

            def orelse():
                return self.stmts(s.orelse)
        # dry pass to find what changes
        saved = (self.g, self.cur, self.st.copy(), self.exits)
        changed = self.dry_changes(s, it, bind, body)
        self.g, self.cur, st0, self.exits = saved[0], saved[1], saved[2], \
            saved[3]
        self.st = st0.copy()
        pre_edges = list(self.cur or ())
        head = self.node('loop', s, iter=it)
        hid = head.id
        for k in changed:
            init = self.st.v.get(k, UNBOUND)
            if init is UNBOUND and k[0] == 'h':
                init = T('attr', k[1], k[2]) if isinstance(k[2], str) \
                    else T('sub', k[1], k[2])
            self.st.v[k] = T('loopvar', hid, k[2] if isinstance(k[2], str)
                             else 'item', init)
        entry_state = self.st.copy()
        exits = []
        lc = Ctx('loop', owner=s, breaks=[], continues=[])
        lc.exc_scope = None
        self.ctx.append(lc)
        if it is not None:
            # iterating may raise (generators of unknown origin)
            nx = self.node('next', s, iter=it, may_raise=True, loop=hid)
            self.cur = [(nx.id, 'T')]
            elem = self.elem_of(it, nx.id)
            if not endless(it):
                exits.append(([(nx.id, 'F')], self.st.copy()))
            bind(elem)
            body()
        else:
            cond = self.eval_cond(s.test)
            if self.cur is not None:
                if is_const(cond):
                    if not cond.args[0]:
                        exits.append((self.cur, self.st.copy()))
                        self.cur = None
                    else:
                        body()
                else:
                    n = self.node('branch', s.test, cond=cond, loop=hid)
                    exits.append(([(n.id, 'F')], self.st.copy()))
                    self.cur = [(n.id, 'T')]
                    body()
        self.ctx.pop()
        backs = list(lc.continues)
        if self.cur is not None:
            backs.append((self.cur, self.st))
        for e, stt in backs:
            for src, label in e:
                self.g.edge(src, hid, 'back' if label == 'next' else label)
        for k in changed:
            lv = entry_state.v[k]
            vals = [stt.v.get(k, UNBOUND) for e, stt in backs]
            self.g.loopvars[lv] = (lv.args[2], vals)
            choices = [(x, lv.args[2]) for x in pre_edges]
            for (e, stt), v in zip(backs, vals):
                choices += [((src, 'back' if label == 'next' else label), v)
                            for src, label in e]
            for x, v in choices:
                d = self.g.sel.setdefault(tuple(x), {})
                d[lv] = None if lv in d and d[lv] is not v else v
        self.merge(exits)
        if self.cur is not None and orelse is not None:
            orelse()
        items = list(lc.breaks)
        if self.cur is not None:
            items.append((self.cur, self.st))
        self.merge(items)

    def dry_changes(self, s, it, bind, body):
        """keys of the state changed by one abstract iteration"""
        g = Graph()
        g.loopvars = {}
        keep_g, keep_cur = self.g, self.cur
        keep_ctx, keep_frames = self.ctx, self.frames
        keep_exits = self.exits
        base = self.st.copy()
        self.g = g
        self.exits = {}
        self.dry += 1
        # contexts are shadowed so that nothing leaks
        nret = []
        for f in {id(f): f for f in keep_frames + [
                c.frame for c in keep_ctx if c.kind == 'frame']}.values():
            nret.append((f, len(getattr(f, 'returns', ())),
                         len(getattr(f, 'with_pending', ()))))
        self.ctx = [self._shadow(c) for c in keep_ctx]
        changed = set()
        try:
            for _round in range(2):
                self.start()
                self.st = base.copy()
                for k in changed:
                    self.st.v[k] = T('loopvar', -1, str(k), 'dry%d' % self.dry)
                before = self.st.copy()
                lc = Ctx('loop', owner=s, breaks=[], continues=[])
                self.ctx.append(lc)
                if it is not None:
                    nx = self.node('next', s, iter=it)
                    bind(self.elem_of(it, -1))
                else:
                    self.eval_cond(s.test)
                if self.cur is not None:
                    body()
                self.ctx.pop()
                backs = list(lc.continues) + list(lc.breaks)
                if self.cur is not None:
                    backs.append((self.cur, self.st))
                new = set()
                for e, stt in backs:
                    for k, v in stt.v.items():
                        if before.v.get(k) is not v:
                            # locals of inlined frames are not loop-carried
                            new.add(k)
                live = {f.id for f in keep_frames}
                f2 = [f for f in keep_frames]
                for f in f2:
                    p = f.parent
                    while p is not None:
                        live.add(p.id)
                        p = p.parent
                new = {k for k in new if k[0] == 'h' or k[1] in live}
                # heap slots of objects created in this iteration
                new = {k for k in new if not (
                    k[0] == 'h' and _mentions_new(k[1], g))}
                if new <= changed:
                    break
                changed |= new
        finally:
            self.g = keep_g
            self.cur = keep_cur
            self.ctx = keep_ctx
            self.frames = keep_frames
            self.exits = keep_exits
            self.dry -= 1
            for f, n, m in nret:
                del f.returns[n:]
                if hasattr(f, 'with_pending'):
                    del f.with_pending[m:]
        return sorted(changed, key=str)

    def _shadow(self, c):
        d = Ctx(c.kind)
        d.__dict__.update(c.__dict__)
        for k in ('exc', 'pending', 'breaks', 'continues'):
            if k in d.__dict__:
                d.__dict__[k] = []
        return d

    def elem_of(self, it, nid):
        if it.op == 'pure' and it.args[0].op == 'ext':
            nm = it.args[0].args[0]
            if nm == 'builtins.enumerate' and it.args[1]:
                return T('tuple', T('elemidx', nid, it.args[1][0]),
                         self.elem_of(it.args[1][0], nid))
            if nm == 'builtins.zip':
                return T('tuple', *[self.elem_of(x, nid)
                                    for x in it.args[1]])
            if nm in ('builtins.list', 'builtins.tuple', 'builtins.iter') \
                    and len(it.args[1]) == 1:
                return self.elem_of(it.args[1][0], nid)
        if it.op == 'comp':
            return T('elem', it, nid)
        return T('elem', it, nid)

    def s_Break(self, s):
        self.node('break', s)
        self.jump('break', None, self.loop_target())

    def s_Continue(self, s):
        self.node('continue', s)
        self.jump('continue', None, self.loop_target())

    def loop_target(self):
        for c in reversed(self.ctx):
            if c.kind == 'loop' and isinstance(c.owner, (ast.For, ast.While)):
                return c.owner
        raise AnalysisError('break outside loop')

    # try -------------------------------------------------------------------
    def s_Try(self, s):
        if s.finalbody:
            return self.try_finally(
                lambda: self.try_except(s) if s.handlers
                else (self.stmts(s.body), self.cur is not None and
                      self.stmts(s.orelse)),
                lambda kind: self.stmts(s.finalbody), s)
        self.try_except(s)

    def try_except(self, s):
        ec = Ctx('except', exc=[], owner=s)
        self.ctx.append(ec)
        # attribute access may fail where the program expects it to
        guard = self.attr_guard
        self.attr_guard = any(
            isinstance(x, ast.Name) and x.id == 'AttributeError'
            for h in s.handlers if h.type is not None
            for x in ast.walk(h.type))
        self.stmts(s.body)
        self.attr_guard = guard
        self.ctx.pop()
        if self.cur is not None and s.orelse:
            self.stmts(s.orelse)
        outs = []
        if self.cur is not None:
            outs.append((self.cur, self.st))
        self.handle(ec, s, outs)
        self.merge(outs)

    def handle(self, ec, s, outs):
        if not ec.exc:
            return
        # dispatch per handler
        pend = ec.exc
        for h in s.handlers:
            if not pend:
                break
            if self.cur is None:
                self.cur = []
                types = self.handler_types(h)
                self.cur = None
            else:
                types = self.handler_types(h)
            caught, rest = [], []
            for edges, st, exc in pend:
                m = self.catches(types, exc)
                if m is not False:
                    caught.append((edges, st, exc))
                if m is not True:
                    rest.append((edges, st, exc))
            if caught:
                self.merge([(e, st) for e, st, x in caught])
                ex = T('exc', h.lineno, tuple(types) if types else ())
                known = [x for e, st, x in caught if isinstance(x, Term)]
                n = self.node('handler', h, types=types, exc=ex,
                              sources=[e for e, st, x in caught],
                              raised=known)
                if h.name:
                    self.store(h.name, ex)
                self.ctx.append(Ctx('handler', exc_term=ex))
                self.stmts(h.body)
                self.ctx.pop()
                if self.cur is not None:
                    outs.append((self.cur, self.st))
            pend = rest
        for edges, st, exc in pend:
            self.route_exc_multi(edges, st, exc)

    def route_exc_multi(self, edges, st, exc):
        for c in reversed(self.ctx):
            if c.kind in ('except', 'finally', 'exccatch'):
                c.exc.append((edges, st, exc))
                return
        self.exits.setdefault('raise', []).append((edges, st, exc))

    def handler_types(self, h):
        if h.type is None:
            return None
        t = self.eval(h.type)
        if t.op == 'tuple':
            return list(t.args)
        return [t]

    def catches(self, types, exc):
        """True / False / None(maybe)"""
        if types is None:
            return True
        if exc is True:
            for t in types:
                nm = self.exc_name(t)
                if nm in ('builtins.Exception', 'builtins.BaseException'):
                    return True
            return None
        if exc == 'base':
            for t in types:
                if self.exc_name(t) == 'builtins.BaseException':
                    return True
            return False
        cls = self.exc_class(exc)
        if cls is None:
            return None
        res = False
        for t in types:
            r = self.exc_subclass(cls, t)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def exc_name(self, t):
        if t.op == 'ext':
            return t.args[0]
        return None

    def exc_class(self, t):
        """class term of a raised value"""
        if t.op in ('class', 'ext'):
            return t
        if t.op == 'inst':
            return T('class', t.args[0])
        if t.op == 'res' and t.args[1].op in ('ext', 'class'):
            return t.args[1]
        if t.op == 'pure' and t.args[0].op == 'ext':
            return t.args[0]
        if t.op == 'exc':
            ty = t.args[1]
            if len(ty) == 1:
                return None
            return None
        return None

    def exc_subclass(self, cls, t):
        import builtins
        if t is cls:
            return True
        names = []
        if cls.op == 'class':
            for c in self.prog.mro(cls.args[0]):
                if isinstance(c, ClassInfo):
                    if t.op == 'class' and t.args[0] is c:
                        return True
                else:
                    names.append(c[1])
        else:
            names.append(cls.args[0])
        for nm in names:
            if not nm.startswith('builtins.'):
                return None
            b = getattr(builtins, nm[9:], None)
            if b is None:
                return None
            if t.op == 'ext' and t.args[0].startswith('builtins.'):
                tb = getattr(builtins, t.args[0][9:], None)
                try:
                    if tb is not None and issubclass(b, tb):
                        return True
                except TypeError:
                    return None
        if t.op == 'ext' and not t.args[0].startswith('builtins.'):
            return None if not names or cls.op == 'ext' else False
        return False

    def try_finally(self, body, final, s):
        fc = Ctx('finally', exc=[], pending=[], owner=s)
        self.ctx.append(fc)
        body()
        self.ctx.pop()
        normal = (self.cur, self.st) if self.cur is not None else None
        outs = []
        if normal:
            self.node('finally', s, why='normal')
            final('normal')
            if self.cur is not None:
                outs.append((self.cur, self.st))
        if fc.exc:
            self.merge([(e, st) for e, st, x in fc.exc])
            self.node('finally', s, why='exc')
            final('exc')
            if self.cur is not None:
                known = {x for e, st, x in fc.exc}
                cur, st = self.cur, self.st
                if len(known) == 1:
                    self.route_exc_multi(cur, st, known.pop())
                else:
                    for x in sorted(known, key=str):
                        self.route_exc_multi(cur, st, x)
                self.cur = None
        groups = {}
        for kind, value, target, cur, st in fc.pending:
            groups.setdefault((kind, id(target)), []).append(
                (value, target, cur, st))
        for (kind, _), items in groups.items():
            if kind == 'return':
                # keep values apart
                byv = {}
                for value, target, cur, st in items:
                    byv.setdefault(value, []).append((target, cur, st))
                for value, its in byv.items():
                    self.merge([(c, st) for t, c, st in its])
                    self.node('finally', s, why=kind)
                    final(kind)
                    self.jump(kind, value, its[0][0])
            else:
                self.merge([(c, st) for v, t, c, st in items])
                self.node('finally', s, why=kind)
                final(kind)
                self.jump(kind, None, items[0][1])
        self.merge(outs)

    # with ------------------------------------------------------------------
    def s_With(self, s):
        self.with_items(s, list(s.items), lambda: self.stmts(s.body))

    def with_items(self, s, items, body):
        if not items:
            return body()
        it = items[0]
        cm = self.eval(it.context_expr)
        if self.cur is None:
            return
        rest = items[1:]

        def inner(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val)
            self.with_items(s, rest, body)

        if cm.op == 'gencall' and 'contextlib.contextmanager' in \
                self.deco_names(cm.args[0]) and self.inline_gens(
                    cm.args[0], self) and \
                not any(f.func is cm.args[0] for f in self.frames):
            return self.with_gen(s, cm, inner)
        n = self.node('enter-with', s, cm=cm, may_raise=True)
        val = T('entered', cm)
        if cm.op == 'res' and cm.args[1].op == 'ext' and \
                cm.args[1].args[0] == 'contextlib.closing' and \
                len(cm.args[2]) == 1:
            val = cm.args[2][0]

        def final(kind):
            self.node('exit-with', s, cm=cm, why=kind)
        self.try_finally(lambda: inner(val), final, s)

    def with_gen(self, s, cm, inner):
        fi, args, kw, closure = cm.args
        fr = Frame(fi, parent=self._closures().get(closure))
        outer_frames = list(self.frames)
        outer_ctx = list(self.ctx)
        owner = self

        def cb(v):
            saved_frames, saved_ctx = self.frames, self.ctx
            gen_ctx = saved_ctx
            self.frames = list(outer_frames)
            # exceptions and jumps inside the with body travel through the
            # generator's contexts (thrown at the yield)
            fc = Ctx('finally', exc=[], pending=[], owner=s)
            self.ctx = outer_ctx + [fc]
            inner(v)
            self.frames, self.ctx = saved_frames, saved_ctx
            # exceptions are thrown into the generator at this point
            for e, st, x in fc.exc:
                self.route_exc_multi(e, st, x)
            # return/break/continue leave through the generator's normal end
            fr.with_pending.extend(fc.pending)
            items = []
            if self.cur is not None:
                items.append((self.cur, self.st))
            for kind, value, target, cur, st in fc.pending:
                mark = st.copy()
                mark.v[('v', fr.id, '<with-exit>')] = T(
                    'withexit', len(fr.with_pending), kind)
                items.append((cur, mark))
            self.merge(items)
            return NONE
        fr.with_pending = []
        fr.yield_cb = cb
        self.frames.append(fr)
        self.node('enter', s, target=fi)
        self.bind_args(fr, fi, list(args), dict(kw))
        self.ctx.append(Ctx('frame', frame=fr))
        self.body_of(fi)
        self.ctx.pop()
        self.frames.pop()
        self.merge([(e, st) for e, st, v in fr.returns])
        if self.cur is not None and fr.with_pending:
            # approximation: leave by every pending way and fall through
            cur, st = self.cur, self.st
            for kind, value, target, c, s0 in fr.with_pending:
                self.cur, self.st = list(cur), st.copy()
                self.jump(kind, value, target)
            self.cur, self.st = cur, st

    # defs ------------------------------------------------------------------
    def s_FunctionDef(self, s):
        fi = self.prog.func_by_node[s]
        v = self.decorated(fi, self.frame)
        self.store(s.name, v)

    def s_ClassDef(self, s):
        ci = self.prog.class_by_node.get(s)
        self.store(s.name, T('class', ci) if ci else TOP)

    def s_Import(self, s):
        for al in s.names:
            nm = al.asname or al.name.split('.')[0]
            full = al.name if al.asname else nm
            t = T('module', full) if full in self.prog.modules \
                else T('ext', full)
            if full not in self.prog.modules:
                self.node('import', s, name=al.name, may_raise=True)
            self.store(nm, t)

    def s_ImportFrom(self, s):
        base = self.prog._import_base(self.frame.module, s)
        ext = base not in self.prog.modules
        self.node('import', s, name=base, may_raise=ext)
        for al in s.names:
            if al.name == '*':
                continue
            if not ext:
                r = self.prog.lookup(self.prog.modules[base], al.name)
                if not r and base + '.' + al.name in self.prog.modules:
                    r = [('module', base + '.' + al.name)]
                t = self.from_entities(r, self.frame.module, al.name) if r \
                    else T('undef', base, al.name)
            else:
                t = T('ext', base + '.' + al.name)
            self.store(al.asname or al.name, t)

    # ----------------------------------------------------------- expressions
    def eval(self, e):
        if self.cur is None:
            return TOP
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s:%s' % (
                type(e).__name__, self.frame.module.relpath,
                getattr(e, 'lineno', '?')))
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.load(e.id, e)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value))
            else:
                parts.append(self.eval(v))
        return T('fstr', *parts)

    def e_Tuple(self, e):
        return T('tuple', *self.elts(e.elts))

    def e_List(self, e):
        return T('list', *self.elts(e.elts))

    def e_Set(self, e):
        return T('set', *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                el = self.const_elems(v)
                if el is not None:
                    out.extend(el)
                else:
                    out.append(T('star', v))
            else:
                out.append(self.eval(x))
        return out

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v)
                if d.op == 'dict':
                    items.extend(d.args)
                else:
                    items.append((T('star'), d))
            else:
                kt = self.eval(k)
                items.append((kt, self.eval(v)))
        return T('dict', *items)

    def e_Lambda(self, e):
        fi = self.prog.func_by_node.get(e)
        if fi is None:
            fi = FuncInfo(self.frame.module, e, '<lambda>', None,
                          self.frame.func)
            self.prog.func_by_node[e] = fi
        self._closures()[self.frame.id] = self.frame
        return T('func', fi, self.frame.id)

    def e_IfExp(self, e):
        v = const_py3_test(e.test)
        if v is not None:
            return self.eval(e.body if v else e.orelse)
        box = {}
        res = []

        def side(x, k):
            def f():
                box[k] = self.eval(x)
            return f
        cond = self.eval_cond(e.test)
        if self.cur is None:
            return TOP
        if is_const(cond):
            return self.eval(e.body if cond.args[0] else e.orelse)
        n = self.node('branch', e.test, cond=cond)
        st0 = self.st.copy()
        self.cur = [(n.id, 'T')]
        a = self.eval(e.body)
        sa = (self.cur, self.st) if self.cur is not None else None
        self.cur = [(n.id, 'F')]
        self.st = st0
        b = self.eval(e.orelse)
        sb = (self.cur, self.st) if self.cur is not None else None
        if sa and sb:
            self.merge([sa, sb], cond)
            return ite(cond, a, b)
        if sa:
            self.cur, self.st = sa
            return a
        if sb:
            self.cur, self.st = sb
            return b
        self.cur = None
        return TOP

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for x in e.values[1:]:
            if self.cur is None:
                return TOP
            c = self.truth(v)
            if is_const(c):
                if bool(c.args[0]) == is_and:
                    v = self.eval(x)
                    continue
                return v
            n = self.node('branch', e, cond=c, shortcircuit=True)
            st0 = self.st.copy()
            self.cur = [(n.id, 'T' if is_and else 'F')]
            w = self.eval(x)
            sa = (self.cur, self.st) if self.cur is not None else None
            sb = ([(n.id, 'F' if is_and else 'T')], st0)
            if sa is None:
                self.cur, self.st = sb
                v = FALSE if is_and else v
                continue
            if is_and:
                self.merge([sa, sb], c)
            else:
                self.merge([sb, sa], c)
            v = T('and' if is_and else 'or', v, w)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return mk_not(self.truth(v))
        if is_const(v):
            try:
                if isinstance(e.op, ast.USub):
                    return const(-v.args[0])
                if isinstance(e.op, ast.Invert):
                    return const(~v.args[0])
                if isinstance(e.op, ast.UAdd):
                    return v
            except TypeError:
                pass
        return T('un', {ast.USub: '-', ast.Invert: '~', ast.UAdd: '+'}[
            type(e.op)], v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            try:
                if op == '+':
                    return const(x + y)
                if op == '-':
                    return const(x - y)
                if op == '*' and not (isinstance(x, (str, bytes)) and
                                      y > 100000):
                    return const(x * y)
                if op == '//':
                    return const(x // y)
                if op == '%':
                    return const(x % y)
                if op == '<<' and y < 256:
                    return const(x << y)
                if op == '>>':
                    return const(x >> y)
                if op == '|':
                    return const(x | y)
                if op == '&':
                    return const(x & y)
                if op == '^':
                    return const(x ^ y)
                if op == '/':
                    return const(x / y)
                if op == '**' and y < 256:
                    return const(x ** y)
            except Exception:
                pass
        if op == '+' and a.op == b.op and a.op in ('tuple', 'list'):
            return T(a.op, *(a.args + b.args))
        return T('bin', op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        parts = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            parts.append(self.cmp(CMPOPS[type(op)], left, right))
            left = right
        v = parts[0]
        for p in parts[1:]:
            v = T('and', v, p)
        return v

    def cmp(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = a.args[0], b.args[0]
            try:
                return const({'==': lambda: x == y, '!=': lambda: x != y,
                              '<': lambda: x < y, '<=': lambda: x <= y,
                              '>': lambda: x > y, '>=': lambda: x >= y,
                              'is': lambda: x is y or x == y and type(x) == type(y),
                              'is not': lambda: not (x is y or x == y and type(x) == type(y)),
                              'in': lambda: x in y,
                              'not in': lambda: x not in y}[op]())
            except TypeError:
                pass
        if op in ('in', 'not in') and is_const(a) and \
                b.op in ('tuple', 'list', 'set') and \
                all(isinstance(k, Term) and is_const(k) for k in b.args):
            return const(any(x is a or cval(x) == cval(a) and
                             type(cval(x)) is type(cval(a))
                             for x in b.args) == (op == 'in'))
        if op in ('in', 'not in') and is_const(a) and b.op == 'dict' and \
                all(isinstance(k, Term) and is_const(k) for k, v in b.args):
            return const((a in [k for k, v in b.args]) == (op == 'in'))
        if op in ('is', 'is not', '==', '!='):
            neg = op in ('is not', '!=')
            if a is b and a.op in ('class', 'func', 'ext', 'module', 'inst'):
                return const(not neg)
            defin = ('class', 'func', 'module', 'tuple', 'list', 'dict')
            if a.op in defin and b.op in defin and a is not b and \
                    (a.op in ('class', 'func') or b.op in ('class', 'func')):
                return const(neg)
            nn = ('class', 'func', 'module', 'tuple', 'list', 'dict', 'inst',
                  'fstr')
            if (a is NONE and b.op in nn) or (b is NONE and a.op in nn):
                return const(neg)
        if op in ('==', '!=', 'is', 'is not') and is_const(a) and \
                not is_const(b):
            a, b = b, a
        elif op in ('<', '>', '<=', '>=') and is_const(a) and not is_const(b):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        return T('cmp', op, a, b)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval(e.slice)
        if self.cur is None:
            return TOP
        h = self.st.v.get(('h', o, k))
        if h is not None:
            return h
        r = self.subscript(o, k)
        if r is not None:
            return r
        self.node('getitem', e, obj=o, key=k, may_raise=True)
        return T('sub', o, k)

    def subscript(self, o, k):
        if o.op == 'dict':
            hit = None
            sure = True
            for a, b in o.args:
                if a is k:
                    hit = b
                elif not (is_const(a) and is_const(k)) and \
                        a.op not in ('class', 'func'):
                    sure = False
            if hit is not None and sure:
                return hit
        if is_const(k) and isinstance(k.args[0], int) and \
                o.op in ('tuple', 'list') and \
                not any(x.op == 'star' for x in o.args):
            try:
                return o.args[k.args[0]]
            except IndexError:
                pass
        if is_const(k) and is_const(o):
            try:
                return const(o.args[0][k.args[0]])
            except Exception:
                pass
        if k.op == 'slice' and o.op in ('tuple', 'list') and \
                all(is_const(x) for x in k.args) and \
                not any(x.op == 'star' for x in o.args):
            return T(o.op, *o.args[slice(*[x.args[0] for x in k.args])])
        if k.op == 'slice' and is_const(o) and \
                all(is_const(x) for x in k.args):
            try:
                return const(o.args[0][slice(*[x.args[0] for x in k.args])])
            except Exception:
                pass
        if is_const(k) and isinstance(k.args[0], int) and o.op == 'ite':
            a = self.subscript(o.args[1], k)
            b = self.subscript(o.args[2], k)
            if a is not None and b is not None:
                return ite(o.args[0], a, b)
        return None

    def e_Slice(self, e):
        return T('slice', *[self.eval(x) if x is not None else NONE
                            for x in (e.lower, e.upper, e.step)])

    def e_Index(self, e):
        return self.eval(e.value)

    def e_Starred(self, e):
        return T('star', self.eval(e.value))

    def e_Attribute(self, e):
        o = self.eval(e.value)
        if self.cur is None:
            return TOP
        v = self.getattr(o, e.attr, e)
        if self.attr_guard and self.cur is not None and v.op == 'attr':
            self.node('getattr', e, obj=o, attr=e.attr, may_raise=True)
        return v

    def getattr(self, o, name, e):
        h = self.st.v.get(('h', o, name))
        if h is not None:
            return h
        if o.op == 'module':
            m = self.prog.modules[o.args[0]]
            r = self.prog.lookup(m, name)
            if r:
                return self.from_entities(r, m, name)
            if o.args[0] + '.' + name in self.prog.modules:
                return T('module', o.args[0] + '.' + name)
            return T('undef', o.args[0], name)
        if o.op == 'ext':
            return T('ext', o.args[0] + '.' + name)
        if o.op in ('inst', 'class') and isinstance(o.args[0], ClassInfo):
            r = self.class_member(o, name, e)
            if r is not None:
                return r
        if o.op == 'super':
            r = self.super_member(o, name, e)
            if r is not None:
                return r
        if o.op == 'ite' and all(x.op in ('inst', 'class', 'module')
                                 for x in alternatives_(o)):
            return T('attr', o, name)
        return T('attr', o, name)

    def class_member(self, o, name, e):
        ci = o.args[0]
        found = self.prog.class_attr(ci, name)
        if not found:
            if o.op == 'class' and name == '__name__':
                return const(ci.name)
            return None
        vals = []
        for b, c in found:
            if b.kind == 'func':
                fi = b.value
                dn = self.deco_names(fi)
                if o.op == 'inst' and ('builtins.property' in dn or
                                       'cached_property' in dn or
                                       'getter' in dn):
                    if 'setter' in dn:
                        continue
                    if self.inline(fi, self) and self.depth_ok(fi):
                        return self.call_func(fi, [o], {}, e)
                    n = self.node('property', e, obj=o, target=fi,
                                  may_raise=True)
                    return T('attr', o, name)
                if 'setter' in dn or 'deleter' in dn:
                    continue
                if self.is_static(fi):
                    vals.append(self.decorated(fi))
                elif self.is_classmethod(fi):
                    vals.append(T('bound', T('class', ci), fi))
                elif o.op == 'inst':
                    vals.append(T('bound', o, fi))
                else:
                    vals.append(T('func', fi, 0))
            elif b.kind == 'class':
                vals.append(T('class', b.value))
            elif b.kind == 'expr':
                # name = classmethod(name) re-wrapping handled via the func
                if isinstance(b.value, ast.Call) and isinstance(
                        b.value.func, ast.Name) and b.value.func.id in (
                        'classmethod', 'staticmethod', 'property',
                        'cached_property') and any(
                        x.kind == 'func' for x, _ in found):
                    if b.value.func.id in ('property', 'cached_property'):
                        fis = [x.value for x, _ in found
                               if x.kind == 'func']
                        if o.op == 'inst':
                            if self.inline(fis[-1], self) and \
                                    self.depth_ok(fis[-1]):
                                return self.call_func(fis[-1], [o], {}, e)
                            self.node('property', e, obj=o, target=fis[-1],
                                      may_raise=True)
                            return T('attr', o, name)
                    continue
                pf = self.prop_expr(b.value, c)
                if pf is not None and o.op == 'inst':
                    if self.inline(pf, self) and self.depth_ok(pf):
                        return self.call_func(pf, [o], {}, e)
                    self.node('property', e, obj=o, target=pf,
                              may_raise=True)
                    return T('attr', o, name)
                v = self.class_expr(c, b.value, name)
                if v.op == 'func' and o.op == 'inst' and \
                        v.args[0].is_lambda:
                    v = T('bound', o, v.args[0])
                vals.append(v)
            elif b.kind in ('import', 'importfrom'):
                vals.append(self.from_entities(
                    self.prog.resolve_binding(c.module, b), c.module, name))
            else:
                return T('attr', o, name)
        if not vals:
            return None
        if len(vals) > 1 and found[0][0].kind != 'func':
            vals = vals[-1:]
        elif len(vals) > 1:
            vals = vals[-1:]
        v = vals[-1]
        if o.op == 'inst' and v.op not in ('bound', 'func', 'class'):
            # instance attribute may shadow: only trust the class value when
            # no method of the class assigns it
            if self.assigned_on_self(ci, name):
                return T('attr', o, name)
        return v

    def prop_expr(self, value, ci):
        """FuncInfo when value is property(f) / cached_property(f)"""
        if isinstance(value, ast.Call) and value.args and isinstance(
                value.func, ast.Name) and value.func.id in (
                'property', 'cached_property'):
            a = value.args[0]
            if isinstance(a, ast.Lambda):
                return self.prog.func_by_node.get(a)
            if isinstance(a, ast.Name):
                for b in ci.members.get(a.id, ()):
                    if b.kind == 'func':
                        return b.value
        return None

    def assigned_on_self(self, ci, name):
        cache = getattr(self.prog, '_self_assigned', None)
        if cache is None:
            cache = self.prog._self_assigned = {}
        key = ci
        if key not in cache:
            s = set()
            rel = [c for c in self.prog.mro(ci) if isinstance(c, ClassInfo)]
            rel += self.prog.subclasses(ci)
            for c in rel:
                for n in ast.walk(c.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and isinstance(
                            n.value, ast.Name) and n.value.id in (
                            'self', 'cls'):
                        s.add(n.attr)
            cache[key] = s
        return name in cache[key]

    def super_member(self, o, name, e):
        ci, inst = o.args
        mro = self.prog.mro(inst.args[0]) if inst.op in ('inst', 'class') \
            and isinstance(inst.args[0], ClassInfo) else self.prog.mro(ci)
        if ci in mro:
            rest = mro[mro.index(ci) + 1:]
        else:
            rest = self.prog.mro(ci)[1:]
        for c in rest:
            if isinstance(c, ClassInfo) and name in c.members:
                for b in reversed(c.members[name]):
                    if b.kind == 'func':
                        return T('bound', inst, b.value)
                return None
            if not isinstance(c, ClassInfo):
                return T('extmethod', c[1], name, inst)
        return T('extmethod', 'builtins.object', name, inst)

    def class_expr(self, ci, expr, name):
        """value of a class-level assignment"""
        key = (ci.fullname, id(expr))
        if key in self._globals_busy:
            return T('attr', T('class', ci), name)
        self._globals_busy.add(key)
        try:
            # the value does not depend on who asks: fixed inlining rule
            sub = Walker(self.prog, inline=declarative,
                         max_depth=self.max_depth, max_nodes=4000,
                         unroll=self.unroll, inline_gens=self.inline_gens)
            sub._globals_busy = self._globals_busy
            fr = Frame(None, module=ci.module)
            fr.is_classbody = True
            fr.cls = ci
            sub.frames = [fr]
            sub.start()
            # names of the class body
            names = {n.id for n in ast.walk(expr) if isinstance(n, ast.Name)}
            for nm in names & set(ci.members):
                # class bodies run top-down: the latest earlier binding
                bs = [b for b in ci.members[nm]
                      if b.node.lineno < expr.lineno and
                      getattr(b.node, 'end_lineno', b.node.lineno) <=
                      expr.lineno and b.value is not expr]
                if not bs:
                    continue
                b = bs[-1]
                if b.kind == 'func':
                    sub.st.v[('v', fr.id, nm)] = T('func', b.value, 0)
                elif b.kind == 'class':
                    sub.st.v[('v', fr.id, nm)] = T('class', b.value)
                elif b.kind == 'expr':
                    sub.st.v[('v', fr.id, nm)] = sub.class_expr(
                        ci, b.value, nm)
            v = sub.eval(expr)
            if any(x.op == 'res' for x in _sub(v)) or is_empty(v):
                return T('cval', ci, name, v)
            return v
        except Budget:
            return T('attr', T('class', ci), name)
        finally:
            self._globals_busy.discard(key)

    # comprehensions ----------------------------------------------------------
    def e_ListComp(self, e):
        return self.comp('list', e)

    def e_SetComp(self, e):
        return self.comp('set', e)

    def e_GeneratorExp(self, e):
        return self.comp('gen', e)

    def e_DictComp(self, e):
        return self.comp('dict', e)

    def comp(self, kind, e):
        """comprehension: executed as a loop collecting elements"""
        names = set()
        for gnr in e.generators:
            for n in ast.walk(gnr.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        shadow = {}
        fr = self.frame
        # comprehension variables live in a child frame
        cf = Frame.__new__(Frame)
        Frame._n += 1
        cf.__dict__.update(fr.__dict__)
        cf.id = Frame._n
        cf.func = _CompScope(names, fr.func)
        cf.parent = fr
        cf.module = fr.module
        cf.cls = fr.cls
        results = []
        sure = [True]

        def rec(i):
            if i == len(e.generators):
                if kind == 'dict':
                    k = self.eval(e.key)
                    v = self.eval(e.value)
                    results.append((k, v))
                else:
                    results.append(self.eval(e.elt))
                return
            gnr = e.generators[i]
            self.frames[-1] = cf if i else self.frames[-1]
            it = self.eval(gnr.iter)
            if self.cur is None:
                return

            def body():
                def conds(j):
                    if j == len(gnr.ifs):
                        rec(i + 1)
                        return
                    c = self.eval_cond(gnr.ifs[j])
                    if is_const(c):
                        if c.args[0]:
                            conds(j + 1)
                        return
                    sure[0] = False
                    n = self.node('branch', gnr.ifs[j], cond=c)
                    if n is None:
                        return
                    s0 = self.st.copy()
                    self.cur = [(n.id, 'T')]
                    conds(j + 1)
                    a = [(self.cur, self.st)] if self.cur else []
                    self.merge(a + [([(n.id, 'F')], s0)])
                conds(0)
            elems = self.const_elems(it)
            if elems is None:
                gen = self.gen_call(it)
                sure[0] = False
                if self.dry == 0 or True:
                    pass
                self.loop_comp(e, it, gnr, cf, body, results)
            else:
                keep = self.frames[-1]
                self.frames[-1] = cf
                for v in elems:
                    if self.cur is None:
                        break
                    self.assign(gnr.target, v)
                    body()
                self.frames[-1] = keep
        keep = self.frames[-1]
        rec(0)
        self.frames[-1] = keep
        if sure[0] and self.cur is not None:
            if kind == 'dict':
                out = {}
                for k, v in results:
                    out[k] = v
                return T('dict', *out.items())
            return T({'gen': 'list'}.get(kind, kind), *results)
        seen = []
        for r in results:
            if isinstance(r, tuple):
                r = T('tuple', *r)
            if r not in seen:
                seen.append(r)
        return T('comp', kind, tuple(seen), ast.unparse(
            e.generators[0].target))

    def loop_comp(self, e, it, gnr, cf, body, results):
        head = self.node('loop', e, iter=it, comp=True)
        if head is None:
            return
        nx = self.node('next', e, iter=it, may_raise=True, loop=head.id)
        s0 = self.st.copy()
        self.cur = [(nx.id, 'T')]
        keep = self.frames[-1]
        self.frames[-1] = cf
        self.assign(gnr.target, self.elem_of(it, nx.id))
        body()
        self.frames[-1] = keep
        if self.cur is not None:
            for src, label in self.cur:
                self.g.edge(src, head.id, 'back' if label == 'next'
                            else label)
        self.cur = [(nx.id, 'F')]
        self.st = s0

    # yield -------------------------------------------------------------------
    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        if self.cur is None:
            return TOP
        fr = self.frame
        # comprehension scopes never yield; find function frame
        if fr.yield_cb is not None:
            return fr.yield_cb(v)
        # what fails in the body of a `with` is thrown in at the yield
        n = self.node('yield', e, value=v, may_raise=bool(
            fr.func is not None and 'contextlib.contextmanager' in
            self.deco_names(fr.func)))
        self.route_exc(n.id, 'genexit', self.st, 'base')
        return T('sent', n.id)

    def e_YieldFrom(self, e):
        it = self.eval(e.value)
        if self.cur is None:
            return TOP
        fake = ast.copy_location(ast.For(
            target=ast.Name('_', ast.Store()), iter=e.value, body=[],
            orelse=[]), e)

        def bind(v):
            self._yf = v

        def body():
            v = self._yf
            fr = self.frame
            if fr.yield_cb is not None:
                fr.yield_cb(v)
            else:
                n = self.node('yield', e, value=v)
                if n is not None:
                    self.route_exc(n.id, 'genexit', self.st, 'base')
        self.for_over(fake, it, bind, body, lambda: None)
        return NONE

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    # calls -------------------------------------------------------------------
    def e_Call(self, e):
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super':
            fr = self.frame
            while fr is not None and fr.cls is None:
                fr = fr.parent
            if len(e.args) == 2:
                c = self.eval(e.args[0])
                i = self.eval(e.args[1])
                if c.op == 'class':
                    return T('super', c.args[0], i)
            elif fr is not None and fr.func is not None and fr.cls:
                p = fr.func.params
                if p:
                    return T('super', fr.cls,
                             self.st.v.get(('v', fr.id, p[0]),
                                           T('sym', p[0])))
        ft = self.eval(f)
        if self.cur is None:
            return TOP
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                el = self.const_elems(v)
                if el is not None:
                    args.extend(el)
                else:
                    args.append(T('star', v))
            else:
                args.append(self.eval(a))
            if self.cur is None:
                return TOP
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if self.cur is None:
                return TOP
            if k.arg is None:
                if v.op == 'dict' and all(is_const(a) for a, b in v.args):
                    for a, b in v.args:
                        kw[a.args[0]] = b
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        r = self.call(ft, args, kw, e)
        self.after_call(e, ft, args, kw)
        return r

    def after_call(self, e, ft, args, kw):
        """list/dict method mutation of a local literal"""
        f = e.func
        if self.cur is None or not isinstance(f, ast.Attribute) or \
                ft.op != 'attr':
            return
        o = ft.args[0]
        m = ft.args[1]
        if not isinstance(f.value, ast.Name):
            return
        name = f.value.id
        if o.op == 'list':
            if m == 'append' and len(args) == 1:
                self.store(name, T('list', *(o.args + (args[0],))))
            elif m == 'extend' and len(args) == 1:
                el = self.const_elems(args[0])
                self.store(name, T('list', *(o.args + tuple(
                    el if el is not None else [T('star', args[0])]))))
            elif m == 'insert' and len(args) == 2 and is_const(args[0]) and \
                    args[0].args[0] == 0:
                self.store(name, T('list', *((args[1],) + o.args)))
            elif m in ('insert', 'pop', 'remove', 'sort', 'reverse',
                       'clear'):
                self.store(name, T('mutlist', o, m, e.lineno))
        elif o.op == 'dict':
            if m == 'update':
                items = list(o.args)
                ok = True
                if len(args) == 1:
                    if args[0].op == 'dict':
                        items += list(args[0].args)
                    else:
                        ok = False
                for k, v in kw.items():
                    items.append((const(k), v))
                if ok:
                    d = {}
                    for k, v in items:
                        d[k] = v
                    self.store(name, T('dict', *d.items()))
                else:
                    self.store(name, T('mutdict', o, m, e.lineno))
            elif m in ('pop', 'popitem', 'clear', 'setdefault'):
                if m == 'pop' and args and is_const(args[0]):
                    self.store(name, T('dict', *[
                        (k, v) for k, v in o.args if k is not args[0]]))
                elif m == 'setdefault' and len(args) == 2:
                    if not any(k is args[0] for k, v in o.args):
                        self.store(name, T('dict', *(
                            o.args + ((args[0], args[1]),))))
                else:
                    self.store(name, T('mutdict', o, m, e.lineno))

    def depth_ok(self, fi):
        if len(self.frames) > self.max_depth:
            return False
        return not any(f.func is fi for f in self.frames)

    def splits(self, ft):
        """one of the callables that a conditional chooses from would be
        looked into"""
        for x in alternatives_(ft):
            fi = x.args[0] if x.op == 'func' else \
                x.args[1] if x.op == 'bound' else \
                self.prog.method(x.args[0], '__init__') or True \
                if x.op == 'class' and isinstance(x.args[0], ClassInfo) \
                else None
            if fi is True or isinstance(fi, FuncInfo) and \
                    not fi.is_generator and self.inline(fi, self) and \
                    self.depth_ok(fi):
                return True
        return False

    def distributed(self, ft):
        """the attribute of a conditional value is the conditional of the
        attributes"""
        if ft.op == 'attr' and ft.args[0].op == 'ite':
            c, a, b = ft.args[0].args
            if any(x.op == 'inst' for x in alternatives_(ft.args[0])):
                def get(x):
                    return self.distributed(T('attr', x, ft.args[1])) \
                        if x.op == 'ite' else self.getattr(x, ft.args[1],
                                                           None)
                return ite(c, get(a), get(b))
        return ft

    def call(self, ft, args, kw, e):
        op = ft.op
        if op == 'attr' and ft.args[0].op == 'ite':
            d = self.distributed(ft)
            if d.op == 'ite' and self.splits(d):
                ft, op = d, 'ite'
        if op == 'ite' and self.splits(ft):
            c, a, b = ft.args
            n = self.node('branch', e, cond=c)
            st0 = self.st.copy()
            self.cur = [(n.id, 'T')]
            ra = self.call(a, args, kw, e)
            sa = (self.cur, self.st) if self.cur is not None else None
            self.cur = [(n.id, 'F')]
            self.st = st0
            rb = self.call(b, args, kw, e)
            sb = (self.cur, self.st) if self.cur is not None else None
            if sa and sb:
                self.merge([sa, sb], c)
                return ite(c, ra, rb)
            self.cur, self.st = sa or sb or (None, self.st)
            return ra if sa else rb
        if op == 'func':
            return self.call_func(ft.args[0], args, kw, e,
                                  closure=ft.args[1])
        if op == 'bound':
            return self.call_func(ft.args[1], [ft.args[0]] + args, kw, e)
        if op == 'class' and isinstance(ft.args[0], ClassInfo):
            return self.call_class(ft.args[0], args, kw, e)
        if op == 'ext':
            return self.call_ext(ft.args[0], ft, args, kw, e)
        if op == 'attr' and is_const(ft.args[0]) or op == 'attr' and \
                ft.args[0].op in ('dict', 'list', 'tuple'):
            r = self.fold_method(ft.args[0], ft.args[1], args, kw)
            if r is not None:
                return r
        if op == 'pure' and ft.args[0].op == 'ext' and \
                ft.args[0].args[0] == 'functools.partial' and ft.args[1]:
            k2 = dict(ft.args[2])
            k2.update(kw)
            return self.call(ft.args[1][0], list(ft.args[1][1:]) + args, k2,
                             e)
        return self.opaque(ft, args, kw, e)

    def opaque(self, ft, args, kw, e, may_raise=True, target=None):
        n = self.node('call', e, fn=ft, args=tuple(args),
                      kw=tuple(sorted(kw.items())), may_raise=may_raise,
                      target=target)
        if n is None:
            return TOP
        nid = self.serial + n.id
        r = T('res', nid if not self.dry else -1 - nid, ft, tuple(args),
              tuple(sorted(kw.items())))
        n.d['result'] = r
        return r

    def fold_method(self, o, m, args, kw):
        if o.op == 'dict':
            if m == 'items' and not args:
                return T('list', *[T('tuple', k, v) for k, v in o.args])
            if m == 'keys' and not args:
                return T('list', *[k for k, v in o.args])
            if m == 'values' and not args:
                return T('list', *[v for k, v in o.args])
            if m == 'get' and args:
                r = self.subscript(o, args[0])
                if r is not None:
                    return r
                if is_const(args[0]) and all(is_const(k) for k, v in o.args):
                    return args[1] if len(args) > 1 else NONE
                return None
            if m == 'copy' and not args:
                return o
            return None
        if is_const(o) and isinstance(o.args[0], (str, bytes)) and \
                m != 'format' and not kw and all(is_const(a) for a in args):
            if m in ('join', 'split', 'strip', 'lower', 'upper', 'replace',
                     'encode', 'decode', 'startswith', 'endswith', 'lstrip',
                     'rstrip', 'partition', 'rpartition', 'title'):
                try:
                    r = getattr(o.args[0], m)(*[a.args[0] for a in args])
                except Exception:
                    return None
                if isinstance(r, list):
                    return T('list', *[const(x) for x in r])
                if isinstance(r, tuple):
                    return T('tuple', *[const(x) for x in r])
                return const(r)
        if is_const(o) and isinstance(o.args[0], str) and m == 'format' and \
                all(is_const(a) for a in args) and \
                all(is_const(a) for a in kw.values()):
            try:
                return const(o.args[0].format(
                    *[a.args[0] for a in args],
                    **{k: v.args[0] for k, v in kw.items()}))
            except Exception:
                return None
        if is_const(o) and isinstance(o.args[0], str) and m == 'join' and \
                len(args) == 1:
            el = self.const_elems(args[0])
            if el is not None and all(is_const(x) and isinstance(
                    x.args[0], str) for x in el):
                return const(o.args[0].join(x.args[0] for x in el))
        if is_const(o) and isinstance(o.args[0], (str, bytes)):
            return T('pure', T('attr', o, m), tuple(args),
                     tuple(sorted(kw.items())))
        return None

    def call_ext(self, name, ft, args, kw, e):
        short = name[9:] if name.startswith('builtins.') else None
        if short is not None:
            if short == 'dict' and not args:
                return T('dict', *[(const(k), v) for k, v in kw.items()
                                   if k != '**'] +
                         ([(T('star'), kw['**'])] if '**' in kw else []))
            if short == 'dict' and len(args) == 1:
                a = args[0]
                base = None
                if a.op == 'dict':
                    base = list(a.args)
                else:
                    el = self.const_elems(a)
                    if el is not None and all(
                            x.op in ('tuple', 'list') and len(x.args) == 2
                            for x in el):
                        base = [(x.args[0], x.args[1]) for x in el]
                if base is not None and '**' not in kw:
                    d = {}
                    for k, v in base:
                        d[k] = v
                    for k, v in kw.items():
                        d[const(k)] = v
                    return T('dict', *d.items())
                if '**' not in kw:
                    return T('dict', (T('star'), a),
                             *[(const(k), v) for k, v in kw.items()])
            if short in ('tuple', 'list', 'set', 'frozenset') and not kw:
                if not args:
                    return T('set' if short == 'frozenset' else short)
                el = self.const_elems(args[0])
                if el is not None:
                    return T('set' if short == 'frozenset' else short, *el)
            if short == 'len' and len(args) == 1:
                el = self.const_elems(args[0])
                if el is not None and args[0].op != 'set':
                    return const(len(el))
            if short == 'range' and all(is_const(a) for a in args) and \
                    args:
                try:
                    r = range(*[a.args[0] for a in args])
                    if len(r) <= self.unroll:
                        return T('list', *[const(i) for i in r])
                except TypeError:
                    pass
            if short in ('reversed', 'sorted') and len(args) == 1 and \
                    not kw:
                el = self.const_elems(args[0])
                if el is not None:
                    if short == 'reversed':
                        return T('list', *reversed(el))
                    if all(is_const(x) for x in el):
                        try:
                            return T('list', *sorted(
                                el, key=lambda x: x.args[0]))
                        except TypeError:
                            pass
            if short == 'enumerate' and len(args) == 1:
                el = self.const_elems(args[0])
                if el is not None:
                    return T('list', *[T('tuple', const(i), x)
                                       for i, x in enumerate(el)])
            if short == 'zip' and args and not kw:
                els = [self.const_elems(a) for a in args]
                if all(x is not None for x in els):
                    return T('list', *[T('tuple', *x) for x in zip(*els)])
            if short in ('ord', 'chr', 'str', 'int', 'bool', 'hex', 'repr',
                         'abs', 'min', 'max', 'len', 'bytes') and args and \
                    not kw and all(is_const(a) for a in args):
                try:
                    return const(getattr(__import__('builtins'), short)(
                        *[a.args[0] for a in args]))
                except Exception:
                    pass
            if short in ('getattr', 'hasattr') and len(args) >= 2 and \
                    is_const(args[1]):
                o = args[0]
                if short == 'getattr' and len(args) == 2:
                    return self.getattr(o, args[1].args[0], e)
                if o.op in ('inst', 'class', 'module') and isinstance(
                        o.args[0], ClassInfo):
                    if self.prog.class_attr(o.args[0], args[1].args[0]):
                        if short == 'hasattr':
                            return TRUE
                        return self.getattr(o, args[1].args[0], e)
            if short == 'setattr' and len(args) == 3 and is_const(args[1]):
                self.setattr(args[0], args[1].args[0], args[2], e)
                return NONE
            if short == 'isinstance' and len(args) == 2:
                r = self.fold_isinstance(args[0], args[1])
                if r is not None:
                    return const(r)
            if short == 'type' and len(args) == 1 and args[0].op == 'inst':
                return T('class', args[0].args[0])
            if short == 'map' and len(args) >= 2:
                els = [self.const_elems(a) for a in args[1:]]
                if all(x is not None for x in els):
                    return T('list', *[self.call(args[0], list(x), {}, e)
                                       for x in zip(*els)])
            if short in PURE and short not in NODED:
                return T('pure', ft, tuple(args), tuple(sorted(kw.items())))
            if short == 'next':
                return self.opaque(ft, args, kw, e)
        if name == 'functools.partial':
            return T('pure', ft, tuple(args), tuple(sorted(kw.items())))
        if name.startswith('os.path.') or name in (
                'itertools.chain', 'operator.itemgetter', 'os.environ.get'):
            return T('pure', ft, tuple(args), tuple(sorted(kw.items())))
        return self.opaque(ft, args, kw, e)

    def fold_isinstance(self, v, c):
        cls = c.args if c.op == 'tuple' else (c,)
        if v.op == 'inst' and isinstance(v.args[0], ClassInfo) and \
                v.args[1] != 'self':
            for x in cls:
                if x.op == 'class':
                    if self.prog.is_subclass(v.args[0], x.args[0]):
                        return True
                else:
                    return None
            return False
        if is_const(v) and v.args[0] is None:
            return False if all(x.op in ('class', 'ext') for x in cls) \
                else None
        lit = {'dict': 'builtins.dict', 'list': 'builtins.list',
               'tuple': 'builtins.tuple'}
        ty = lit.get(v.op)
        if is_const(v):
            ty = 'builtins.' + type(v.args[0]).__name__
        if ty:
            r = False
            for x in cls:
                if x.op == 'ext' and x.args[0] == ty:
                    return True
                if x.op == 'ext' and x.args[0].startswith('builtins.'):
                    continue
                if x.op == 'class':
                    continue
                r = None
            return r
        return None

    def call_class(self, ci, args, kw, e):
        init = self.prog.method(ci, '__init__')
        n = self.node('new', e, cls=ci, args=tuple(args),
                      kw=tuple(sorted(kw.items())), may_raise=True)
        if n is None:
            return TOP
        nid = self.serial + n.id
        nid = nid if not self.dry else -1 - nid
        new = self.prog.method(ci, '__new__')
        obj = T('inst', ci, nid)
        n.d['result'] = obj
        self.prog.__dict__.setdefault('ctor_args', {})[obj] = (
            tuple(args), tuple(sorted(kw.items())))
        if new is None and init is not None and self.inline(init, self) and \
                self.depth_ok(init):
            self.call_func(init, [obj] + args, kw, e)
        return obj

    def call_func(self, fi, args, kw, e, closure=0):
        dn = self.deco_names(fi)
        if fi.is_generator:
            clean_kw = tuple(sorted(kw.items()))
            t = T('gencall', fi, tuple(args), clean_kw, closure)
            self.node('mkgen', e, target=fi, args=tuple(args), kw=clean_kw,
                      result=t)
            return t
        if self.inline(fi, self) and self.depth_ok(fi):
            fr = Frame(fi, parent=self._closures().get(closure) or
                       self.pseudo_parent(fi))
            self.node('enter', e, target=fi)
            self.frames.append(fr)
            self.bind_args(fr, fi, args, kw)
            self.ctx.append(Ctx('frame', frame=fr))
            self.body_of(fi)
            self.ctx.pop()
            self.frames.pop()
            rets = fr.returns
            if not rets:
                self.cur = None
                return TOP
            self.merge([(c, s) for c, s, v in rets])
            if len(rets) == 1:
                v = rets[0][2]
            else:
                v = self.gate_returns(rets)
            self.node('leave', e, target=fi, value=v)
            # drop callee locals
            fid = fr.id
            if not getattr(fi, 'inner', None) and not any(
                    isinstance(x, ast.Lambda) for x in fi.body_nodes()):
                for k in [k for k in self.st.v
                          if k[0] == 'v' and k[1] == fid]:
                    del self.st.v[k]
            return v
        ft = T('func', fi, 0)
        return self.opaque(ft, args, kw, e, target=fi)

    def gate_returns(self, rets):
        """two returns split by one branch -> ite"""
        vals = [v for c, s, v in rets]
        if len(rets) == 2:
            b = self.common_branch(rets[0][0], rets[1][0])
            if b is not None:
                cond, first_is_true = b
                return ite(cond, vals[0] if first_is_true else vals[1],
                           vals[1] if first_is_true else vals[0])
        r = phi(vals)
        self.record_phi(r, [(c, v) for c, s, v in rets])
        return r

    def common_branch(self, ea, eb):
        """branch node whose T side leads (only) to ea and F side to eb"""
        def back(edges):
            seen = {}
            st = [(s, l) for s, l in edges]
            out = set()
            steps = 0
            while st and steps < 4000:
                steps += 1
                s, l = st.pop()
                n = self.g.nodes[s]
                if n.kind == 'branch':
                    out.add((s, l))
                if s in seen:
                    continue
                seen[s] = 1
                st.extend(n.pred)
            return out
        a, b = back(ea), back(eb)
        for s, l in sorted(a, reverse=True):
            other = 'F' if l == 'T' else 'T'
            if (s, other) in b and (s, other) not in a and (s, l) not in b:
                return self.g.nodes[s].cond, l == 'T'
        return None

    def pseudo_parent(self, fi):
        """frame for the enclosing function of a nested function, if it is on
        the stack"""
        if fi.parent is None:
            return None
        for f in reversed(self.frames):
            p = f
            while p is not None:
                if p.func is fi.parent:
                    return p
                p = p.parent
        return Frame(fi.parent, parent=None)

    def bind_args(self, fr, fi, args, kw):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        sv = self.st.v
        starred = any(x.op == 'star' for x in args) or '**' in kw
        rest = []
        for i, v in enumerate(args):
            if v.op == 'star':
                for p in pos[i:]:
                    if ('v', fr.id, p) not in sv and p not in kw:
                        sv[('v', fr.id, p)] = T('argstar', v, p)
                rest = args[i:]
                break
            if i < len(pos):
                sv[('v', fr.id, pos[i])] = v
            else:
                rest.append(v)
        extra = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                sv[('v', fr.id, k)] = v
            else:
                extra[k] = v
        defaults = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is not None]
        for p, d in defaults:
            if ('v', fr.id, p) not in sv:
                if starred and '**' in kw:
                    sv[('v', fr.id, p)] = T('argstar', kw['**'], p)
                    continue
                if isinstance(d, ast.Constant):
                    sv[('v', fr.id, p)] = const(d.value)
                else:
                    # evaluated in the defining module's scope
                    keep = self.frames
                    mf = Frame(None, module=fi.module)
                    mf.parent = fr.parent
                    self.frames = keep[:-1] + [mf] if keep else [mf]
                    cur = self.cur
                    sv[('v', fr.id, p)] = self.eval(d)
                    self.frames = keep
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if ('v', fr.id, p) not in sv:
                if '**' in kw:
                    sv[('v', fr.id, p)] = T('argstar', kw['**'], p)
                else:
                    sv[('v', fr.id, p)] = T('missingarg', p)
        if a.vararg:
            sv[('v', fr.id, a.vararg.arg)] = T('tuple', *rest)
        if a.kwarg:
            items = [(const(k), v) for k, v in extra.items()]
            if '**' in kw:
                items.append((T('star'), kw['**']))
            sv[('v', fr.id, a.kwarg.arg)] = T('dict', *items)


def declarative(f, w):
    """everything but the constructors of declared types"""
    return not (f.module.name == 'hwp5.dataio' and
                f.name in ('Primitive', 'Flags', 'Enum'))


def module_globals(prog, module):
    """names bound through globals()[...] / globals().update(...) by the
    module's top-level statements"""
    w = Walker(prog, max_nodes=60000, unroll=2000)
    fr = Frame(None, module=module)
    fr.is_classbody = True
    w.frames = [fr]
    w.start()
    out = {}
    for st in module.tree.body:
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import,
                           ast.ImportFrom)):
            continue
        if w.cur is None:
            break
        n0 = len(w.g.nodes)
        try:
            w.stmt(st)
        except (AnalysisError, Budget):
            continue
        for n in w.g.nodes[n0:]:
            if n.kind == 'setitem' and is_globals(n.obj) and is_const(n.key):
                out[n.key.args[0]] = n.value
            elif n.kind == 'call' and n.fn.op == 'attr' and \
                    n.fn.args[1] == 'update' and is_globals(n.fn.args[0]):
                for a in n.args:
                    if a.op == 'dict':
                        for k, v in a.args:
                            if is_const(k):
                                out[k.args[0]] = v
                    elif a.op in ('list', 'tuple'):
                        for x in a.args:
                            if x.op == 'tuple' and len(x.args) == 2 and \
                                    is_const(x.args[0]):
                                out[x.args[0].args[0]] = x.args[1]
    return out


def is_empty(t):
    if t.op in ('dict', 'list', 'set'):
        return not t.args
    return t.op == 'pure' and t.args[0].op == 'ext' and t.args[0].args[0] in (
        'builtins.dict', 'builtins.set', 'builtins.list') and not t.args[1]


def is_globals(t):
    return t.op == 'pure' and t.args[0].op == 'ext' and t.args[0].args[0] in (
        'builtins.globals', 'builtins.vars', 'builtins.locals')


def rebound(prog):
    """(module name, name) of globals that functions assign: through `global`,
    as attributes of the module, as items of globals()"""
    r = prog.__dict__.get('_rebound')
    if r is None:
        r = prog._rebound = set()
        for f in prog.functions:
            f.local_names
            for n in ast.walk(f.node) if not f.is_lambda else ():
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and \
                        n.id in (f._globals or ()):
                    r.add((f.module.name, n.id))
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and isinstance(
                        n.value, (ast.Name, ast.Attribute)):
                    try:
                        es = prog.resolve_expr(f.module, n.value, f)
                    except Exception:
                        continue
                    for e in es or ():
                        if e[0] == 'module' and e[1] in prog.modules:
                            r.add((e[1], n.attr))
                elif isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                        n.slice.value, str) and any(
                        isinstance(x, ast.Call) and isinstance(
                            x.func, ast.Name) and x.func.id == 'globals'
                        for x in ast.walk(f.node)):
                    r.add((f.module.name, n.slice.value))
        r = prog._rebound = {(m, n) for m, n in r
                             if n in prog.modules[m].bindings}
    return r


def endless(it):
    """iterator that never ends by itself"""
    return it is not None and it.op in ('res', 'pure') and \
        it.args[1 if it.op == 'res' else 0].op == 'ext' and \
        it.args[1 if it.op == 'res' else 0].args[0] in (
            'itertools.count', 'itertools.cycle')


class _CompScope:
    """stands in for FuncInfo as the scope of comprehension variables"""

    def __init__(self, names, outer):
        self.local_names = names
        self._globals = set()
        self.fullname = outer.fullname if outer else '<module>'
        self.cls = getattr(outer, 'cls', None)
        self.params = getattr(outer, 'params', [])
        self.outer = outer
        self.module = getattr(outer, 'module', None)
        self.name = '<comp>'
        self.node = getattr(outer, 'node', None)
        self.inner = {}


def _sub(t):
    from .terms import subterms
    return subterms(t)


def alternatives_(t):
    from .terms import alternatives
    return alternatives(t)


def _mentions_new(t, g):
    """object term created inside the dry graph g"""
    for x in _sub(t):
        if x.op == 'inst' and isinstance(x.args[1], int) and x.args[1] < 0:
            return True
        if x.op == 'res' and isinstance(x.args[0], int) and x.args[0] < 0:
            return True
        if x.op == 'elem' and len(x.args) > 1 and x.args[1] == -1:
            return True
    return False


# ---------------------------------------------------------------- graph tools
def reachable(g, starts, avoid=(), labels=None, forward=True):
    """node ids reachable from starts (node ids), not expanding `avoid`"""
    avoid = set(avoid)
    seen = set()
    st = list(starts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in avoid:
            continue
        for y, l in (g.nodes[x].succ if forward else g.nodes[x].pred):
            if labels is None or l in labels:
                if y not in seen:
                    st.append(y)
    return seen


def dominators(g):
    """immediate-dominator map {node: set of dominators} over reachable
    nodes, on a graph whose branch edges are split so that facts can be
    extracted"""
    order = []
    seen = set()
    st = [(g.entry, iter([s for s, _ in g.nodes[g.entry].succ]))]
    seen.add(g.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter([x for x, _ in g.nodes[s].succ])))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    idx = {n: i for i, n in enumerate(order)}
    idom = {g.entry: g.entry}
    changed = True
    while changed:
        changed = False
        for n in order:
            if n == g.entry:
                continue
            new = None
            for p, _ in g.nodes[n].pred:
                if p in idom and p in idx:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = idom[a]
                            while idx[b] > idx[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                changed = True
    return idom, idx


def dom_chain(idom, n):
    out = []
    if n not in idom:
        return out
    while idom[n] != n:
        n = idom[n]
        out.append(n)
    return out


def facts_at(g, nid, dom=None):
    """[(cond term, polarity, branch node id)] that hold whenever nid runs
    (must facts from dominating branch edges)"""
    idom, idx = dom or dominators(g)
    facts = []
    chain = [nid] + dom_chain(idom, nid)
    for d in chain:
        n = g.nodes[d]
        if n.kind != 'branch' or d == nid:
            continue
        # is nid reachable from d only by one label?
        t = [s for s, l in n.succ if l == 'T']
        f = [s for s, l in n.succ if l == 'F']
        rt = reachable(g, t, avoid=[d])
        rf = reachable(g, f, avoid=[d])
        in_t, in_f = nid in rt, nid in rf
        if in_t and not in_f:
            facts.append((n.cond, True, d))
        elif in_f and not in_t:
            facts.append((n.cond, False, d))
    return facts
