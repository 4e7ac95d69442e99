# -*- coding: utf-8 -*-
"""Program model: every module of /repo/src/hwp5 parsed, names resolved.

Nothing of the analysed program is imported or run: only its source text is
read and turned into syntax trees.
"""
import ast
import builtins
import hashlib
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'hwp5'

# Names that exist only under python 2; not builtins here (python 3.12 is the
# interpreter the build uses).
BUILTINS = frozenset(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                       '__path__', '__package__',
                                       '__spec__', '__loader__'}


class AnalysisError(Exception):
    """the analysis itself cannot be carried out (never a verdict)"""


class Module:
    def __init__(self, prog, name, path, tree, text, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.tree = tree
        self.text = text
        self.is_pkg = is_pkg
        self.bindings = {}   # name -> list of Binding
        self.star_imports = []
        self.relpath = os.path.relpath(path, REPO)

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def __repr__(self):
        return '<Module %s>' % self.name


class FuncInfo:
    kind = 'func'

    def __init__(self, module, node, qualname, cls=None, parent=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.cls = cls
        self.parent = parent      # enclosing FuncInfo
        self.is_lambda = isinstance(node, ast.Lambda)
        self._gen = None
        self._locals = None
        self._globals = None

    @property
    def fullname(self):
        return self.module.name + ':' + self.qualname

    @property
    def name(self):
        return '<lambda>' if self.is_lambda else self.node.name

    @property
    def decorators(self):
        return [] if self.is_lambda else self.node.decorator_list

    def body_nodes(self):
        """own statements, nested scopes excluded"""
        return iter_scope(self.node)

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                            for n in iter_scope(self.node))
        return self._gen

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def local_names(self):
        if self._locals is None:
            names = set()
            glob = set()
            a = self.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            for n in iter_scope(self.node):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef,
                                    ast.AsyncFunctionDef)):
                    names.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
            self._locals = names - glob
            self._globals = glob
        return self._locals

    def __repr__(self):
        return '<Func %s>' % self.fullname


class ClassInfo:
    kind = 'class'

    def __init__(self, module, node, qualname, parent=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.parent = parent
        self.members = {}     # name -> list of Binding
        self.metaclass = None
        self._mro = None

    @property
    def fullname(self):
        return self.module.name + ':' + self.qualname

    @property
    def name(self):
        return self.node.name

    def __repr__(self):
        return '<Class %s>' % self.fullname


class Binding:
    """one way a name gets bound. kind: func, class, import, importfrom, expr,
    other"""
    __slots__ = ('kind', 'value', 'node', 'guard', 'extra')

    def __init__(self, kind, value, node, guard=(), extra=None):
        self.kind = kind
        self.value = value
        self.node = node
        self.guard = guard
        self.extra = extra


def iter_scope(root):
    """AST nodes of a scope without descending into nested functions/classes
    (comprehensions ARE descended into). Decorators/defaults of nested
    functions belong to the enclosing scope."""
    if isinstance(root, ast.Lambda):
        stack = [root.body]
    elif isinstance(root, (ast.FunctionDef, ast.AsyncFunctionDef,
                           ast.ClassDef, ast.Module)):
        stack = list(reversed(root.body))
    else:
        stack = [root]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = n.args
            stack.extend(n.decorator_list)
            stack.extend(a.defaults)
            stack.extend(d for d in a.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda):
            stack.extend(n.args.defaults)
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(n.decorator_list)
            stack.extend(n.bases)
            stack.extend(k.value for k in n.keywords)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def const_py3_test(test):
    """value of a `sys.version_info.major == 3`-like test, else None"""
    try:
        s = ast.unparse(test)
    except Exception:
        return None
    ns = {'sys': sys}
    names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)}
    calls = [n for n in ast.walk(test) if isinstance(n, ast.Call)]
    if names and names <= {'sys', 'PY3', 'PY2'} and not calls:
        s2 = s.replace('PY3', 'True').replace('PY2', 'False')
        if 'version' in s2 or 'PY' in s:
            try:
                return bool(eval(compile(s2, 'x', 'eval'), {}, ns))
            except Exception:
                return None
    if isinstance(test, ast.Constant):
        return bool(test.value)
    return None


class Program:
    def __init__(self, src=None, overlay=None):
        self.overlay = overlay or {}    # relpath below src -> text
        self.src = src or SRC
        self.modules = {}
        self.functions = []
        self.classes = []
        self.func_by_node = {}
        self.class_by_node = {}
        self.errors = []
        self._load()

    # -- loading
    def _load(self):
        root = os.path.join(self.src, PKG)
        if not os.path.isdir(root):
            raise AnalysisError('no package at %s' % root)
        h = hashlib.sha256()
        for dirpath, dirnames, filenames in os.walk(root):
            dirnames[:] = sorted(d for d in dirnames if d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.src)[:-3]
                parts = rel.split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                name = '.'.join(parts)
                rp = os.path.relpath(path, self.src)
                if rp in self.overlay:
                    data = self.overlay[rp].encode('utf-8')
                else:
                    with open(path, 'rb') as f:
                        data = f.read()
                h.update(name.encode() + b'\0' + data)
                text = data.decode('utf-8')
                tree = ast.parse(text, path)
                m = Module(self, name, path, tree, text, is_pkg)
                self.modules[name] = m
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index_module(m)

    def snippet(self, text):
        """a query module: resolved like a module of the package, but no part
        of the analysed program"""
        tree = ast.parse(text, '<query>')
        m = Module(self, PKG + '._query', '<query>', tree, text, False)
        m.relpath = '<query>'
        nf, nc = len(self.functions), len(self.classes)
        self._index_module(m)
        del self.functions[nf:]
        del self.classes[nc:]
        return m

    def _index_module(self, m):
        self._index_body(m, m.tree.body, m.bindings, '', None, None, ())

    def _index_body(self, m, body, out, prefix, cls, parent, guard):
        """collect bindings in a statement list, register functions/classes"""
        def bind(name, b):
            out.setdefault(name, []).append(b)

        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m, st, prefix + st.name, cls, parent)
                self.functions.append(fi)
                self.func_by_node[st] = fi
                bind(st.name, Binding('func', fi, st, guard))
                self._index_function(m, fi)
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(m, st, prefix + st.name, parent)
                self.classes.append(ci)
                self.class_by_node[st] = ci
                bind(st.name, Binding('class', ci, st, guard))
                self._index_body(m, st.body, ci.members,
                                 prefix + st.name + '.', ci, parent, ())
                self._index_lambdas_stmt(m, st, prefix + st.name + '.', ci,
                                         parent, header_only=True)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        bind(al.asname, Binding('import', al.name, st, guard))
                    else:
                        top = al.name.split('.')[0]
                        bind(top, Binding('import', top, st, guard,
                                          extra=al.name))
            elif isinstance(st, ast.ImportFrom):
                base = self._import_base(m, st)
                for al in st.names:
                    if al.name == '*':
                        m.star_imports.append(base)
                        continue
                    bind(al.asname or al.name,
                         Binding('importfrom', (base, al.name), st, guard))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self._bind_target(bind, t, st.value, st, guard)
                self._index_lambdas_stmt(m, st, prefix, cls, parent)
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    bind(st.target.id, Binding('other', None, st, guard))
                self._index_lambdas_stmt(m, st, prefix, cls, parent)
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    self._bind_target(bind, st.target, st.value, st, guard)
                self._index_lambdas_stmt(m, st, prefix, cls, parent)
            elif isinstance(st, ast.If):
                v = const_py3_test(st.test)
                if v is not False:
                    self._index_body(m, st.body, out, prefix, cls, parent,
                                     guard + ((st, True),))
                if v is not True:
                    self._index_body(m, st.orelse, out, prefix, cls, parent,
                                     guard + ((st, False),))
            elif isinstance(st, (ast.For, ast.While)):
                if isinstance(st, ast.For):
                    self._bind_target(bind, st.target, None, st, guard)
                self._index_body(m, st.body + st.orelse, out, prefix, cls,
                                 parent, guard + ((st, True),))
            elif isinstance(st, ast.Try):
                self._index_body(m, st.body + st.orelse, out, prefix, cls,
                                 parent, guard + ((st, 'try'),))
                for hd in st.handlers:
                    self._index_body(m, hd.body, out, prefix, cls, parent,
                                     guard + ((st, 'except'),))
                self._index_body(m, st.finalbody, out, prefix, cls, parent,
                                 guard)
            elif isinstance(st, ast.With):
                for it in st.items:
                    if it.optional_vars is not None:
                        self._bind_target(bind, it.optional_vars, None, st,
                                          guard)
                self._index_body(m, st.body, out, prefix, cls, parent, guard)
            elif isinstance(st, ast.Delete):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        bind(t.id, Binding('del', None, st, guard))
            else:
                self._index_lambdas_stmt(m, st, prefix, cls, parent)

    def _index_lambdas_stmt(self, m, st, prefix, cls, parent,
                            header_only=False):
        roots = [st]
        if header_only:
            roots = list(st.bases) + list(st.decorator_list)
        for r in roots:
            for n in ast.walk(r):
                if isinstance(n, ast.Lambda) and n not in self.func_by_node:
                    fi = FuncInfo(m, n, prefix + '<lambda>', cls, parent)
                    self.functions.append(fi)
                    self.func_by_node[n] = fi

    def _bind_target(self, bind, t, value, st, guard):
        if isinstance(t, ast.Name):
            bind(t.id, Binding('expr' if value is not None else 'other',
                               value, st, guard))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and \
                    len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self._bind_target(bind, a, b, st, guard)
            else:
                for a in t.elts:
                    self._bind_target(bind, a, None, st, guard)
        elif isinstance(t, ast.Starred):
            self._bind_target(bind, t.value, None, st, guard)

    def _index_function(self, m, fi):
        fi.inner = {}
        self._index_body(m, fi.node.body, fi.inner,
                         fi.qualname + '.', None, fi, ())
        # lambdas anywhere inside
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Lambda) and n not in self.func_by_node:
                li = FuncInfo(m, n, fi.qualname + '.<lambda>', None, fi)
                self.functions.append(li)
                self.func_by_node[n] = li

    def _import_base(self, m, st):
        if st.level == 0:
            return st.module
        pkg = m.package.split('.')
        if st.level > 1:
            pkg = pkg[:-(st.level - 1)]
        base = '.'.join(pkg)
        if st.module:
            base = base + '.' + st.module
        return base

    # -- resolution
    def lookup(self, module, name, _seen=None):
        """list of entities a module-global name may denote.

        entity: ('func', FuncInfo) ('class', ClassInfo) ('module', name)
        ('ext', dotted) ('expr', Module, ast) ('other', Module, node)"""
        _seen = _seen or set()
        key = (module.name, name)
        if key in _seen:
            return []
        _seen.add(key)
        res = []
        for b in module.bindings.get(name, ()):
            res.extend(self.resolve_binding(module, b, _seen))
        if not res:
            sub = module.name + '.' + name
            if module.is_pkg and sub in self.modules:
                res.append(('module', sub))
        if not res:
            for base in module.star_imports:
                bm = self.modules.get(base)
                if bm is not None:
                    res.extend(self.lookup(bm, name, _seen))
        if not res:
            t = self.dynamic_names(module).get(name)
            if t is not None:
                res.append(('term', t))
        return res

    def dynamic_names(self, module):
        """names a module defines by writing to globals() at import time"""
        d = self.__dict__.setdefault('_dyn', {})
        if module.name in d:
            return d[module.name]
        d[module.name] = {}
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
               n.func.id in ('globals', 'vars', 'locals')
               for st in module.tree.body
               if not isinstance(st, (ast.FunctionDef, ast.ClassDef))
               for n in ast.walk(st)):
            from .flow import module_globals
            d[module.name] = module_globals(self, module)
        return d[module.name]

    def resolve_binding(self, module, b, _seen=None):
        if b.kind == 'func':
            return [('func', b.value)]
        if b.kind == 'class':
            return [('class', b.value)]
        if b.kind == 'import':
            if b.value in self.modules:
                return [('module', b.value)]
            return [('ext', b.value)]
        if b.kind == 'importfrom':
            base, nm = b.value
            if base in self.modules:
                r = self.lookup(self.modules[base], nm, _seen)
                if r:
                    return r
                if base + '.' + nm in self.modules:
                    return [('module', base + '.' + nm)]
                return [('missing', base + '.' + nm)]
            return [('ext', base + '.' + nm)]
        if b.kind == 'expr':
            return [('expr', module, b.value)]
        return [('other', module, b.node)]

    def base_classes(self, ci):
        """resolved bases: ClassInfo or ('ext', dotted) / None"""
        out = []
        for b in ci.node.bases:
            if isinstance(b, ast.Call):
                ents = self.resolve_expr(ci.module, b.func, ci.parent)
                if any(e == ('ext', 'six.with_metaclass') for e in ents):
                    ci.metaclass = self.resolve_expr_class(
                        ci.module, b.args[0], ci.parent)
                    for x in b.args[1:]:
                        out.append(self.resolve_expr_class(
                            ci.module, x, ci.parent))
                    continue
            out.append(self.resolve_expr_class(ci.module, b, ci.parent))
        for k in ci.node.keywords:
            if k.arg == 'metaclass':
                ci.metaclass = self.resolve_expr_class(
                    ci.module, k.value, ci.parent)
        return out

    def metaclass(self, ci):
        for c in self.mro(ci):
            if isinstance(c, ClassInfo):
                if getattr(c, 'metaclass', None) is not None:
                    return c.metaclass
        return None

    def resolve_expr_class(self, module, expr, fn=None):
        ents = self.resolve_expr(module, expr, fn)
        for e in ents:
            if e[0] == 'class':
                return e[1]
            if e[0] == 'ext':
                return e
        return None

    def resolve_expr(self, module, expr, fn=None, _depth=0):
        """static resolution of a Name/Attribute chain to entities"""
        if _depth > 12:
            return []
        if isinstance(expr, ast.Name):
            f = fn
            while f is not None:
                if expr.id in f.local_names:
                    bs = getattr(f, 'inner', {}).get(expr.id)
                    if not bs:
                        return []
                    out = []
                    for b in bs:
                        out.extend(self.resolve_binding(module, b))
                    return self._deref(out, _depth)
                f = f.parent
            r = self.lookup(module, expr.id)
            if not r and expr.id in BUILTINS:
                return [('ext', 'builtins.' + expr.id)]
            return self._deref(r, _depth)
        if isinstance(expr, ast.Attribute):
            out = []
            for e in self.resolve_expr(module, expr.value, fn, _depth + 1):
                if e[0] == 'module':
                    mm = self.modules[e[1]]
                    r = self.lookup(mm, expr.attr)
                    if not r and e[1] + '.' + expr.attr in self.modules:
                        r = [('module', e[1] + '.' + expr.attr)]
                    out.extend(self._deref(r, _depth))
                elif e[0] == 'ext':
                    out.append(('ext', e[1] + '.' + expr.attr))
                elif e[0] == 'class':
                    for b, _c in self.class_attr(e[1], expr.attr):
                        out.extend(self._deref(
                            self.resolve_binding(_c.module, b), _depth))
            return out
        return []

    def _deref(self, ents, depth):
        out = []
        for e in ents:
            if e[0] == 'expr' and isinstance(e[2], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(e[1], e[2], None, depth + 1)
                out.extend(r if r else [e])
            else:
                out.append(e)
        return out

    def mro(self, ci):
        if ci._mro is None:
            ci._mro = [ci]     # recursion guard
            seqs = []
            bases = self.base_classes(ci)
            for b in bases:
                if isinstance(b, ClassInfo):
                    seqs.append(list(self.mro(b)))
                elif b is not None:
                    seqs.append([b])
            seqs.append([b for b in bases if b is not None])
            res = [ci]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if s and s[0] == c:
                        del s[0]
            ci._mro = res
        return ci._mro

    def class_attr(self, ci, name):
        """[(Binding, defining ClassInfo)] of the first class in the MRO that
        binds name"""
        for c in self.mro(ci):
            if isinstance(c, ClassInfo) and name in c.members:
                return [(b, c) for b in c.members[name]]
        return []

    def method(self, ci, name):
        for b, c in self.class_attr(ci, name):
            if b.kind == 'func':
                return b.value
        return None

    def is_subclass(self, ci, dotted_or_ci):
        for c in self.mro(ci):
            if c == dotted_or_ci:
                return True
            if isinstance(c, tuple) and c[1] == dotted_or_ci:
                return True
        return False

    def subclasses(self, ci):
        return [c for c in self.classes if ci in self.mro(c) and c is not ci]

    # -- convenience
    def func(self, modname, qualname):
        for f in self.functions:
            if f.module.name == modname and f.qualname == qualname:
                return f
        return None

    def cls(self, modname, name):
        m = self.modules.get(modname)
        if m is None:
            return None
        for e in self.lookup(m, name):
            if e[0] == 'class':
                return e[1]
        for c in self.classes:
            if c.module is m and c.qualname == name:
                return c
        return None

    def find_func(self, modname, name):
        """function visible as modname.name (re-exports followed)"""
        m = self.modules.get(modname)
        if m is None:
            return None
        for e in self.lookup(m, name):
            if e[0] == 'func':
                return e[1]
        f = self.func(modname, name)
        return f
