# -*- coding: utf-8 -*-
"""C06 compiled definitions and shared tables are never modified by parsing."""
import ast
from .. import shared
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ._util import short, fn_args
from .R10 import entry_points, subcommands

TECHNIQUE = ('effect analysis: every change of a module variable, class '
             'member, default argument, descriptor or function attribute '
             'made inside a function is found and classified as definition, '
             'memo or configuration; the memos are checked for values that '
             'depend on the key alone and are immutable')
LEVEL_NOTE = ('Aliases are followed inside one function; a table changed '
              'through an object that reached another function as a '
              'parameter is seen only when that function itself names it.')
EXPLANATION = '''State that outlives a document is any module variable, class
member, default argument, descriptor attribute or function attribute. Each
statement in a function that changes such state (item or attribute store,
mutating method, rebinding of a global, setattr) is classified: it belongs to a
metaclass or to a function that runs only while modules are loaded; or it is a
memo, whose stored value derives from nothing but its key and the program's
definitions; or it is configuration, whose value derives from no parameter.
Everything else is a change made by processing. What a memo stores is a tuple
of immutable items. Module variables and class members are not one-shot
iterators.'''


def reach(ctx):
    """functions that may run while a command processes a document"""
    hit = getattr(ctx, '_runtime', None)
    if hit is None:
        starts = list(entry_points(ctx).values()) + subcommands(ctx)
        starts += wrapped(ctx.prog)
        hit = ctx._runtime = ctx.cg.closure(starts)
    return hit


def loading(ctx):
    """functions that module and class bodies call, directly or not"""
    hit = getattr(ctx, '_loading', None)
    if hit is not None:
        return hit
    prog = ctx.prog
    starts = []
    for m in prog.modules.values():
        todo = list(m.tree.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                todo.extend(getattr(x, 'decorator_list', ()))
                for d in getattr(x, 'decorator_list', ()):
                    starts.extend(called(prog, m, d))
                continue
            if isinstance(x, ast.ClassDef):
                for d in x.decorator_list:
                    starts.extend(called(prog, m, d))
            if isinstance(x, ast.Call):
                starts.extend(called(prog, m, x.func))
            todo.extend(ast.iter_child_nodes(x))
    for f in prog.functions:
        if definition(prog, f):
            starts.append(f)
    hit = ctx._loading = ctx.cg.closure(starts)
    return hit


def called(prog, m, e):
    out = []
    try:
        found = prog.resolve_expr(m, e, None)
    except Exception:
        return out
    for x in found or ():
        if x[0] == 'func':
            out.append(x[1])
        elif x[0] == 'class':
            for nm in ('__init__', '__new__', '__call__'):
                f = prog.method(x[1], nm)
                if f is not None:
                    out.append(f)
    return out


def wrapped(prog):
    """methods a class body hands to a property or another descriptor"""
    out = []
    for ci in prog.classes if not isinstance(prog.classes, dict) else \
            prog.classes.values():
        for x in getattr(ci.node, 'body', ()):
            if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                for a in x.value.args:
                    if isinstance(a, ast.Name):
                        f = prog.method(ci, a.id)
                        f = f[-1] if isinstance(f, list) and f else f
                        if hasattr(f, 'qualname'):
                            out.append(f)
    return out


def definition(prog, f):
    """a method of a metaclass that makes a class from its body, or a
    function nested in one"""
    h = f
    while h is not None:
        if h.cls is not None and h.name in ('__new__', '__init__',
                                            '__init_subclass__',
                                            '__set_name__',
                                            '__prepare__'):
            meta = any(not hasattr(c, 'members') and 'type' in str(c)
                       for c in prog.mro(h.cls)) or \
                h.name == '__init_subclass__'
            names = set(h.params)
            if meta and (names & {'attrs', 'bases', 'namespace', 'dct',
                                  'dict', 'ns', 'body'} or
                         len(h.params) >= 4) or h.name in (
                             '__init_subclass__', '__set_name__'):
                return True
        h = h.parent
    return False


def leaves(t):
    """the parameters and results a value is made from"""
    out = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, (tuple, list)):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'sym':
            out.add(x)
        st.extend(x.args)
    return out


def store_nodes(ctx, s):
    g = ctx.graphs.get(s.func)
    if g is None:
        return []
    out = []
    for n in g.nodes:
        if n.kind in ('setitem', 'gstore', 'setattr'):
            ln = n.loc.split(':')[-1] if n.loc else ''
            if ln.isdigit() and int(ln) == s.node.lineno:
                out.append(n)
    return out


def memo(ctx, s):
    """None if the store is a memo or configuration, else the reason"""
    ns = store_nodes(ctx, s)
    if s.how not in ('item', 'attribute', 'rebinding', 'setattr',
                     'setdefault'):
        return 'it is changed by %s' % s.how
    if isinstance(getattr(s.node, 'ctx', None), ast.Del):
        return 'an entry is removed'
    if s.how == 'setdefault' or not ns and isinstance(s.node, ast.Call):
        c = s.node
        if s.how == 'setdefault' and len(c.args) == 2:
            ks = {x.id for x in ast.walk(c.args[0])
                  if isinstance(x, ast.Name)}
            vs = {x.id for x in ast.walk(c.args[1])
                  if isinstance(x, ast.Name) and x.id in
                  set(s.func.params) | set(s.func.local_names)}
            return None if vs <= ks else 'the value depends on %s' % \
                sorted(vs - ks)
        return 'it is changed by %s' % s.how
    if s.how == 'rebinding':
        return rebinding(s)
    if accumulates(s):
        return 'each call adds to it'
    for n in ns:
        if n.kind == 'setitem':
            if any(x.op in ('item', 'sub') and x.args[0] is n.obj and
                   x.args[1] is n.key for x in subterms(n.value)
                   if x is not n.value):
                return 'each call adds to it'
            have = leaves(n.key) | leaves(n.obj)
            if any(fn_args(x)[0] is not None and
                   fn_args(x)[0].op == 'ext' and
                   fn_args(x)[0].args[0] == 'builtins.id'
                   for x in subterms(n.key)):
                return 'the key is the identity of an object'
            if is_const(n.key):
                have = set()
        else:
            have = set()
        v = n.get('value')
        if v is None:
            continue
        if n.kind == 'setitem' and have:
            have = {x for x in have if exact(n.key, x) or exact(n.obj, x) or
                    x not in apart(v, {n.key} | table_keys(n.obj), x)}
        more = {x for x in leaves(v) - have
                if not isinstance(x.args[0], str) or
                x.args[0] not in ('cls', 'mcs')}
        if more:
            return 'the stored value depends on %s' % ', '.join(
                sorted(short(x, 30) for x in more))
    return None


LOSSY = ('len', 'bool', 'hash', 'lower', 'upper', 'casefold', 'strip',
         'rstrip', 'lstrip', 'basename', 'dirname', 'splitext', 'split',
         'partition', 'rpartition', 'startswith', 'endswith', 'int', 'round',
         'abs', 'min', 'max', 'sum', 'any', 'all', 'isinstance', 'hasattr')


def exact(t, leaf):
    """do different values of the leaf make different keys (as far as one
    can see)"""
    if t is leaf:
        return True
    if isinstance(t, (tuple, list)):
        return any(exact(x, leaf) for x in t)
    if not isinstance(t, Term):
        return False
    if t.op in ('sub', 'item'):
        return exact(t.args[1], leaf)
    if t.op in ('cmp', 'not', 'slice', 'attr'):
        return False
    if t.op == 'bin' and t.args[0] != '+':
        # a format of one value may hold all of it
        return t.args[0] == '%' and is_const(t.args[1]) and \
            exact(t.args[2], leaf)
    fn, args = fn_args(t)
    if fn is not None:
        nm = fn.args[1] if fn.op == 'attr' else str(fn.args[0])
        if isinstance(nm, str) and nm.rpartition('.')[2] in LOSSY:
            return False
        if fn.op == 'attr' and exact(fn.args[0], leaf):
            return True
        return any(exact(x, leaf) for x in args)
    return any(exact(x, leaf) for x in t.args)


def apart(v, keys, leaf):
    """{leaf} if the value depends on it other than by the keys"""
    if v is leaf:
        return {leaf}
    if isinstance(v, (tuple, list)):
        return {x for y in v for x in apart(y, keys, leaf)}
    if not isinstance(v, Term) or v in keys:
        return set()
    return {x for y in v.args for x in apart(y, keys, leaf)}


def table_keys(t):
    return {x.args[1] for x in subterms(t)
            if x.op in ('sub', 'item') and isinstance(x.args[1], Term)}


def accumulates(s):
    """the store changes what was there: x[k] += 1, x[k] = x[k] + 1"""
    for x in shared.iter_scope(s.func.node):
        if isinstance(x, ast.AugAssign) and any(
                y is s.node for y in ast.walk(x.target)):
            return True
        if isinstance(x, ast.Assign) and isinstance(
                x.value, (ast.BinOp, ast.Call)) and any(
                    s.node is y for y in x.targets) and any(
                        ast.dump(y) == ast.dump(s.node).replace(
                            'Store()', 'Load()')
                        for y in ast.walk(x.value)):
            return True
    return False


def rebinding(s):
    """a global is configuration if what it is bound to is made from nothing
    the function was given"""
    f = s.func
    for x in shared.iter_scope(f.node):
        if isinstance(x, (ast.Assign, ast.AugAssign)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            if not any(s.node is y for t in ts for y in ast.walk(t)):
                continue
            if isinstance(x, ast.AugAssign):
                return 'each call adds to it'
            todo = [x.value]
            seen = set()
            while todo:
                e = todo.pop()
                for y in ast.walk(e):
                    if not isinstance(y, ast.Name) or y.id in seen:
                        continue
                    seen.add(y.id)
                    if y.id in f.params:
                        return 'it is bound to a value made from %s' % y.id
                    if y.id in f.local_names:
                        todo.extend(z.value for z in shared.iter_scope(f.node)
                                    if isinstance(z, ast.Assign) and any(
                                        isinstance(t, ast.Name) and
                                        t.id == y.id for t in z.targets))
    return None


def state_rule(ctx, R, funcs=None):
    prog = ctx.prog
    run_ = reach(ctx)
    load = loading(ctx)
    for s in shared.sites(prog):
        f = s.func
        what = '%s %s.%s %s' % (f.fullname, s.owner, s.name, s.how)
        if f not in run_ and not any(
                p in run_ for p in parents(f)) and any(
                    p in load for p in parents(f)):
            ctx.ok(R, what + ' (while loading)')
            continue
        if funcs is not None and not funcs(f):
            continue
        if definition(prog, f):
            ctx.ok(R, what + ' (definition)')
            continue
        why = memo(ctx, s)
        ctx.check(why is None, R, what, '%s %s.%s outlives the document and '
                  'is changed while processing it: %s' % (
                      s.kind, s.owner, s.name, why), s.loc)
    # descriptors keep nothing on themselves
    for f in prog.functions:
        if f.cls is not None and f.name in ('__get__', '__set__') and \
                f.params:
            me = f.params[0]
            for x in ast.walk(f.node):
                hit = None
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, ast.Store) and isinstance(
                            x.value, ast.Name) and x.value.id == me:
                    hit = x
                if isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, ast.Store):
                    r, path = shared.base_name(x)
                    if isinstance(r, ast.Name) and r.id == me:
                        hit = x
                if hit is not None:
                    ctx.bad(R, '%s descriptor' % f.fullname,
                            'the descriptor, which all instances share, '
                            'keeps a value of one of them',
                            '%s:%d' % (f.module.name, hit.lineno))
            ctx.ok(R, '%s descriptor' % f.fullname)


def parents(f):
    while f is not None:
        yield f
        f = f.parent


ONESHOT = {'builtins.iter', 'builtins.map', 'builtins.filter',
           'builtins.zip', 'builtins.enumerate', 'builtins.reversed',
           'itertools.chain', 'itertools.islice', 'itertools.count',
           'itertools.cycle', 'itertools.imap', 'itertools.ifilter'}


def oneshot(prog, m, e):
    if isinstance(e, ast.GeneratorExp):
        return True
    if isinstance(e, ast.Call):
        for x in prog.resolve_expr(m, e.func, None):
            if x[0] == 'ext' and x[1] in ONESHOT:
                return True
            if x[0] == 'func' and x[1].is_generator and not any(
                    isinstance(d, ast.Name) for d in
                    x[1].node.decorator_list):
                return True
    return False


def iterator_rule(ctx, R='C06.iterators'):
    ctx.rule(R, 'no module variable or class member is an iterator that the '
             'first document uses up', 50)
    prog = ctx.prog
    for m in prog.modules.values():
        todo = [(m.tree.body, m.name, None)]
        while todo:
            body, owner, _x = todo.pop()
            for s in body:
                if isinstance(s, ast.ClassDef):
                    todo.append((s.body, '%s.%s' % (owner, s.name), s))
                if isinstance(s, (ast.If, ast.Try)):
                    todo.append((list(ast.iter_child_nodes(s)), owner,
                                 None))
                if not isinstance(s, ast.Assign):
                    continue
                names = [t.id for t in s.targets
                         if isinstance(t, ast.Name)]
                if not names:
                    continue
                nm = names[0]
                bad = oneshot(prog, m, s.value)
                if bad:
                    # used inside a function and not rebound afterwards
                    last = [y for y in body if isinstance(y, ast.Assign) and
                            any(isinstance(t, ast.Name) and t.id == nm
                                for t in y.targets)][-1]
                    bad = last is s and used_in_functions(prog, m, nm)
                ctx.check(not bad, R, '%s.%s' % (owner, nm),
                          'is an iterator; it is empty after its first use',
                          '%s:%d' % (m.name, s.lineno))


    # default arguments
    for f in prog.functions:
        a = getattr(f.node, 'args', None)
        if a is None:
            continue
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
            (k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults)
            if d is not None]
        for k, d in pairs:
            ctx.check(not oneshot(prog, f.module, d), R,
                      '%s %s' % (f.fullname, k.arg),
                      'the default is an iterator all calls share',
                      '%s:%d' % (f.module.name, f.node.lineno))


def changes_itself(ctx, f, depth=0):
    """the method changes the object it is called on"""
    if f is None or not f.params or depth > 3:
        return False
    me = f.params[0]
    for x in shared.iter_scope(f.node):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(
                x.ctx, (ast.Store, ast.Del)):
            r, path = shared.base_name(x)
            if isinstance(r, ast.Name) and r.id == me and path:
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            r, path = shared.base_name(x.func.value)
            if not isinstance(r, ast.Name) or r.id != me:
                continue
            if path and x.func.attr in shared.METHODS - {'write'}:
                return True
            if not path and f.cls is not None and changes_itself(
                    ctx, ctx.prog.method(f.cls, x.func.attr), depth + 1):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'next' and x.args:
            r, path = shared.base_name(x.args[0])
            if isinstance(r, ast.Name) and r.id == me and path:
                return True
    return False


def object_rule(ctx, R, funcs=None):
    """objects that module variables hold are not changed through their
    methods"""
    prog = ctx.prog
    load = loading(ctx)
    run_ = reach(ctx)
    for f in prog.functions:
        if funcs is not None and not funcs(f) or f in load and \
                f not in run_:
            continue
        if not isinstance(f.node.body, list):
            continue
        for x in shared.iter_scope(f.node):
            if not isinstance(x, ast.Call):
                continue
            o, nm = None, None
            if isinstance(x.func, ast.Attribute):
                o, nm = x.func.value, x.func.attr
            elif isinstance(x.func, ast.Name):
                if x.func.id == 'next' and x.args:
                    o, nm = x.args[0], '__next__'
                else:
                    o, nm = x.func, '__call__'
            if not isinstance(o, ast.Name) or shared.owner_scope(
                    f, o.id)[0] == 'local':
                continue
            v = None
            for e in prog.resolve_expr(f.module, o, f) or ():
                if e[0] == 'expr' and isinstance(e[-1], ast.Call):
                    v = e
            if v is None:
                v = module_value(f.module, o.id)
                m = f.module
            else:
                m = v[1] if hasattr(v[1], 'tree') else f.module
                v = v[-1]
            if v is None:
                continue
            for e in prog.resolve_expr(m, v.func, None) or ():
                if e[0] != 'class':
                    continue
                h = prog.method(e[1], nm) or (prog.method(
                    e[1], 'next') if nm == '__next__' else None)
                ctx.check(h is None or not changes_itself(ctx, h), R,
                          '%s %s.%s' % (f.fullname, o.id, nm),
                          'changes %s, which outlives the document' % o.id,
                          '%s:%d' % (f.module.name, x.lineno))


def module_value(m, name):
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and \
                any(isinstance(t, ast.Name) and t.id == name
                    for t in s.targets):
            return s.value
    return None


def used_in_functions(prog, m, nm):
    for f in prog.functions:
        if f.module is not m:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == nm and isinstance(
                    x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Attribute) and x.attr == nm:
                return True
    return False


FROZEN = {'builtins.tuple', 'builtins.frozenset', 'builtins.str',
          'builtins.int', 'builtins.bytes', 'types.MappingProxyType'}


def frozen(ctx, t, depth=0):
    """True immutable, False mutable, None unknown"""
    if depth > 6:
        return None
    if is_const(t):
        return isinstance(cval(t), (int, str, bytes, tuple, frozenset,
                                    type(None)))
    if t.op == 'tuple':
        return True
    if t.op in ('list', 'dict', 'set'):
        return False
    if t.op == 'container':
        return False if t.args[0] in ('dict', 'list', 'set') else None
    if t.op in ('phi', 'ite'):
        rs = [frozen(ctx, a, depth + 1) for a in alternatives(t)
              if a is not t]
        return False if False in rs else (
            True if rs and all(rs) else None)
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'ext':
        if fn.args[0] in FROZEN:
            return True
        if fn.args[0] in ('builtins.dict', 'builtins.list', 'builtins.set',
                          'builtins.bytearray', 'builtins.iter',
                          'builtins.map', 'builtins.filter',
                          'builtins.sorted', 'collections.deque'):
            return False
    if t.op in ('gencall',) or t.op == 'comp' and t.args[0] in (
            'gen', 'list', 'dict', 'set'):
        return False
    return None


def items_of(ctx, t):
    """terms of the items a tuple(...) of a generator is made from"""
    fn, args = fn_args(t)
    if fn is None or fn.op != 'ext' or fn.args[0] != 'builtins.tuple' or \
            not args:
        return None
    return items(ctx, args[0], set())


def gencall_args(f, a):
    """{parameter: argument} of a gencall term"""
    out = dict(zip(f.params, a.args[1] if len(a.args) > 1 else ()))
    for kv in (a.args[2] if len(a.args) > 2 and
               isinstance(a.args[2], tuple) else ()):
        if isinstance(kv, tuple) and len(kv) == 2:
            out[kv[0]] = kv[1]
    return out


def items(ctx, a, seen, which=None):
    """[(term)] a generator or comprehension produces; elements a stage
    passes on are those of its source"""
    if a.op == 'gencall':
        f = a.args[0]
        g = ctx.graphs.get(f)
        if g is None or f in seen:
            return []
        seen = seen | {f}
        given = gencall_args(f, a)
        out = []
        for n in g.nodes:
            v = n.get('value')
            if n.kind == 'yield' and isinstance(v, Term):
                out.extend(expand(ctx, v, given, seen, which))
        return out
    if a.op == 'comp':
        return list(a.args[1])
    return []


def index(i):
    return cval(i) if isinstance(i, Term) and is_const(i) else i


def expand(ctx, v, given, seen, which=None):
    if v.op == 'tuple':
        vs = [y for z in v.args for y in (
            z if isinstance(z, tuple) else (z,))]
        if isinstance(which, int) and which < len(vs):
            vs = [vs[which]]
        return [z for x in vs if isinstance(x, Term)
                for z in expand1(ctx, x, given, seen)]
    return expand1(ctx, v, given, seen, which)


def expand1(ctx, x, given, seen, which=None):
    """components an item is made from"""
    if x.op == 'ite':
        parts = [y for y in x.args[1:] if isinstance(y, Term)]
        # a stage that makes items immutable does so for every event; what
        # it would leave alone is no event
        done = [y for y in parts if frozen(ctx, y) is True]
        return [z for y in (done or parts)
                for z in expand1(ctx, y, given, seen, which)]
    y = x
    if y.op == 'item' and len(y.args) > 1:
        which, y = index(y.args[1]), y.args[0]
    if y.op == 'elem':
        src = y.args[0]
        if src.op == 'sym' and src.args[0] in given:
            src = given[src.args[0]]
        if src.op == 'gencall':
            return items(ctx, src, seen, which)
        return [x]
    if x.op == 'sym' and x.args[0] in given:
        return [given[x.args[0]]]
    return [x]


def bad_item(ctx, v):
    return frozen(ctx, v) is False


def memo_values(ctx):
    """(function, node, value) of each memo store"""
    run_ = reach(ctx)
    for s in shared.sites(ctx.prog):
        if s.how != 'item' or s.func not in run_ or \
                definition(ctx.prog, s.func):
            continue
        for n in store_nodes(ctx, s):
            if n.kind == 'setitem':
                yield s, n


def frozen_rule(ctx):
    R = 'C06.immutable'
    ctx.rule(R, 'what a memo hands out cannot be modified by those who get '
             'it', 1)
    for s, n in memo_values(ctx):
        v = n.value
        what = '%s %s' % (s.func.fullname, s.name)
        if v.op == 'container' and inner_table(ctx, s.func, v):
            continue
        vs = [v]
        fn, _a = fn_args(v)
        given = {}
        if fn is not None and fn.op == 'func':
            given = dict(zip(fn.args[0].params, _a or ()))
            g = ctx.graphs.get(fn.args[0])
            vs = [m.value for m in g.nodes if m.kind == 'return' and
                  isinstance(m.get('value'), Term)] if g else []
        for x in vs:
            r = frozen(ctx, x)
            ctx.check(r is not False, R, what, '%s is stored and handed out '
                      'and can be modified' % short(x, 70), ctx.where(n))
            its = items_of(ctx, x)
            for y in its or ():
                if y.op == 'sym' and y.args[0] in given:
                    y = given[y.args[0]]
                ctx.check(not bad_item(ctx, y), R, what + ' items',
                          'the items %s can be modified by those who get '
                          'them' % short(y, 70), ctx.where(n))
    # lru_cache and the like
    for f in ctx.prog.functions:
        for d in getattr(f.node, 'decorator_list', []):
            e = d.func if isinstance(d, ast.Call) else d
            names = [x[1] for x in ctx.prog.resolve_expr(f.module, e, None)
                     if x[0] == 'ext']
            if not any(x in ('functools.lru_cache', 'functools.cache')
                       for x in names):
                continue
            g = ctx.graphs.get(f)
            rs = [m.value for m in g.nodes if m.kind == 'return' and
                  isinstance(m.get('value'), Term)] if g else []
            ctx.check(not f.is_generator and not any(
                frozen(ctx, x) is False for x in rs), R,
                '%s cached' % f.fullname, 'what the cache hands out can be '
                'modified', f.module.name)


def inner_table(ctx, f, v):
    """an empty table stored to be filled in the same function"""
    g = ctx.graphs.get(f)
    return any(n.kind == 'setitem' and v in set(subterms(n.obj))
               for n in g.nodes)


def run(ctx):
    R = 'C06.state'
    ctx.rule(R, 'processing a document changes no state that outlives it, '
             'except memos determined by their key and configuration '
             'determined by the environment', 12)
    state_rule(ctx, R)
    object_rule(ctx, R)
    frozen_rule(ctx)
    iterator_rule(ctx)
    table_rule(ctx)


def table_rule(ctx):
    R = 'C06.handed'
    ctx.rule(R, 'a shared table or a part of it that a function returns is '
             'not changed by the receiver', 1)
    prog = ctx.prog
    shared_funcs = {}
    for f, g in ctx.graphs.items():
        rs = [n.value for n in g.nodes if n.kind == 'return' and
              isinstance(n.get('value'), Term)]
        for r in rs:
            for a in alternatives(r):
                b = a
                while b.op == 'sub':
                    b = b.args[0]
                if b.op in ('gval', 'cval') and not is_const(b):
                    shared_funcs[f] = b
    for f, g in ctx.graphs.items():
        for n in g.nodes:
            o = None
            if n.kind == 'setitem' or n.kind == 'setattr':
                o = n.obj
            elif n.kind == 'call' and n.fn.op == 'attr' and \
                    n.fn.args[1] in shared.METHODS - {'write'}:
                o = n.fn.args[0]
            if o is None:
                continue
            for a in alternatives(o):
                while a.op == 'sub':
                    a = a.args[0]
                fn, _a = fn_args(a)
                if fn is not None and fn.op == 'func' and \
                        fn.args[0] in shared_funcs and n.kind != 'setattr':
                    ctx.bad(R, '%s %s' % (f.fullname, fn.args[0].fullname),
                            'changes %s, which %s hands out' % (
                                short(shared_funcs[fn.args[0]], 50),
                                fn.args[0].fullname), ctx.where(n))
    ctx.ok(R, '%d functions hand out shared state' % len(shared_funcs))


B = 'hwp5/bintype.py'
D = 'hwp5/dataio.py'
U = 'hwp5/utils.py'
X = 'hwp5/xmlmodel.py'
BM = 'hwp5/binmodel/__init__.py'

witnesses = [
    ('key holds a part of the version', 'hwp5/bintype.py',
     '    if version not in versioned_typedefs:\n'
     '        versioned_typedefs[version] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[version]\n',
     '    release = version[:3]\n'
     '    if release not in versioned_typedefs:\n'
     '        versioned_typedefs[release] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[release]\n'),
    ('version left out of the key', B, [
        ("    if version not in versioned_typedefs:\n"
         "        versioned_typedefs[version] = typedefs = dict()\n"
         "    typedefs = versioned_typedefs[version]\n",
         "    typedefs = versioned_typedefs\n")]),
    ('items stay mutable', B, """        events = make_items_immutable(events)
        events = tuple(events)
        typedefs""", """        events = tuple(events)
        typedefs"""),
    ('compiled items stay mutable', B,
     "    events = make_items_immutable(events)\n    return tuple(events)",
     "    return tuple(bintype_map_events(bin_item))"),
    ('generator kept', B, """        events = tuple(events)
        typedefs""", """        typedefs"""),
    ('list kept', B, """        events = tuple(events)
        typedefs""", """        events = list(events)
        typedefs"""),
    ('array type by size', D, "        key = itemtype, size\n",
     "        key = size\n"),
    ('array type by count type', D, "        key = counttype, itemtype\n",
     "        key = counttype\n"),
    ('descriptor keeps the value', U, [
        ("        value = obj.__dict__.get(self.__name__, NIL)\n",
         "        value = getattr(self, 'value', NIL)\n"),
        ("            obj.__dict__[self.__name__] = value\n        return",
         "            self.value = value\n        return")]),
    ('remember in a table', 'hwp5/binmodel/_shared.py', None, None),
    ('default argument grows', 'hwp5/treeop.py', None, None),
    ('version remembered', 'hwp5/filestructure.py', [
        ("    def get_version(self):\n",
         "    def get_version(self):\n"
         "        global last_version\n        last_version = self.value\n")]),
    ('attribute of a class', 'hwp5/recordstream.py', [
        ("    def records(self, **kwargs):\n",
         "    def records(self, **kwargs):\n"
         "        RecordStream.last = kwargs\n")]),
    ('ids from a shared counter', X, [
        ("def give_elements_unique_id(event_prefixed_mac):\n",
         "class Ids(object):\n    last = 0\n\n    def take(self):\n"
         "        self.last += 1\n        return self.last\n\n\n"
         "ids = Ids()\n\n\n"
         "def give_elements_unique_id(event_prefixed_mac):\n"),
        ("attributes['table_id'] = table_id",
         "attributes['table_id'] = ids.take()")]),
    ('default counter', X, [
        ("def give_elements_unique_id(event_prefixed_mac):\n",
         "def give_elements_unique_id(event_prefixed_mac,\n"
         "                            ids=iter(range(9))):\n"),
        ("attributes['table_id'] = table_id",
         "attributes['table_id'] = next(ids)")]),
    ('iterator table', 'hwp5/tagids.py', [
        ("tagnames = {", "taglist = iter([1])\n\n\ndef next_tag():\n"
         "    return next(taglist)\n\n\ntagnames = {")]),
]
witnesses = [w for w in witnesses if w[2] is not None]

benign = [
    ('key holds the version', 'hwp5/bintype.py',
     '    if version not in versioned_typedefs:\n'
     '        versioned_typedefs[version] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[version]\n',
     '    release = tuple(version)\n'
     '    if release not in versioned_typedefs:\n'
     '        versioned_typedefs[release] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[release]\n'),
    ('memo by setdefault', B, """    if type not in master_typedefs:
        logger.info('compile typedef of %s', type)
        typedef_events = compile_type_definition(dict(type=type))
        master_typedefs[type] = typedef_events
    return master_typedefs[type]""", """    try:
        return master_typedefs[type]
    except KeyError:
        logger.info('compile typedef of %s', type)
        typedef_events = compile_type_definition(dict(type=type))
        master_typedefs[type] = typedef_events
        return typedef_events"""),
    ('one table with two keys', B, """    if version not in versioned_typedefs:
        versioned_typedefs[version] = typedefs = dict()
    typedefs = versioned_typedefs[version]

    if type not in typedefs:
        logger.info('filter compiled typedef of %s with version %s',
                    type, version)
        typedef_events = get_compiled_typedef(type)
        events = static_to_mutable(typedef_events)
        events = filter_with_version(events, version)
        events = make_items_immutable(events)
        events = tuple(events)
        typedefs[type] = events

    return typedefs[type]""", """    key = (type, version)
    events = versioned_typedefs.get(key)
    if events is None:
        events = static_to_mutable(get_compiled_typedef(type))
        events = filter_with_version(events, version)
        events = tuple(make_items_immutable(events))
        versioned_typedefs[key] = events
    return events"""),
    ('helper compiles', B, """        typedef_events = get_compiled_typedef(type)
        events = static_to_mutable(typedef_events)
        events = filter_with_version(events, version)
        events = make_items_immutable(events)
        events = tuple(events)
        typedefs[type] = events

    return typedefs[type]
""", """        typedefs[type] = versioned(type, version)

    return typedefs[type]


def versioned(type, version):
    events = static_to_mutable(get_compiled_typedef(type))
    events = filter_with_version(events, version)
    return tuple(make_items_immutable(events))
"""),
    ('local table', 'hwp5/recordstream.py', [
        ("    def records(self, **kwargs):\n",
         "    def records(self, **kwargs):\n"
         "        options = dict(kwargs)\n"
         "        options.update(kwargs)\n")]),
    ('ids from a counter', X, [
        ("def give_elements_unique_id(event_prefixed_mac):\n",
         "class Ids(object):\n    last = 0\n\n    def take(self):\n"
         "        self.last += 1\n        return self.last\n\n\n"
         "def give_elements_unique_id(event_prefixed_mac):\n"
         "    ids = Ids()\n"),
        ("attributes['table_id'] = table_id",
         "attributes['table_id'] = ids.take()")]),
    ('getattr on the instance', U,
     "            obj.__dict__[self.__name__] = value\n        return",
     "            cache = obj.__dict__\n"
     "            cache[self.__name__] = value\n        return"),
]
