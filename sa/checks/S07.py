# -*- coding: utf-8 -*-
"""S07 temporary files and OS handles are released on every exit."""
import ast
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import value
from ..prog import FuncInfo, ClassInfo
from ..flow import Walker
from ._util import short, fn_args, returns, term_values

TECHNIQUE = ('typestate analysis over the flow graphs of all functions with '
             'exception and generator-exit edges: every acquired handle or '
             'temporary path must be released, or handed over, on every path '
             'from its acquisition to an exit; interprocedural summaries '
             '(acquires / releases / retains its argument)')
LEVEL_NOTE = ('Failures of calls that cannot realistically fail (logging, '
              'path arithmetic, type tests, wrapping a fresh descriptor) are '
              'not exits. What is handed over (returned, stored, put in a '
              'container, held by a returned object) is owned by the '
              'receiver; receivers that are unknown callables are trusted '
              'when the result outlives the call. The UNO, Java and Jython '
              'backends are excluded.')
EXPLANATION = '''Acquisitions are the calls that create files, descriptors,
temporary files and directories and processes, .open() of storage items, and
construction of documents. For each, the flow graph (with the exceptional
edges, including GeneratorExit at each yield) is searched for a path to an
exit, or back to the acquisition, which passes neither a release nor a
hand-over.'''

HANDLES = {'io.open', 'builtins.open', 'codecs.open', 'os.fdopen',
           'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile',
           'tempfile.SpooledTemporaryFile', 'zipfile.ZipFile',
           'urllib.request.urlopen', 'pkg_resources.resource_stream',
           'gzip.open', 'io.FileIO'}
CLOSING = {'close', '__exit__', 'release', 'unlink', 'terminate'}
REMOVE = {'os.unlink', 'os.remove', 'pathlib.Path.unlink'}
RMDIR = {'shutil.rmtree', 'os.rmdir', 'os.removedirs'}
SAFE = ('os.path.', 'logging.', 'builtins.len', 'builtins.isinstance',
        'builtins.hasattr', 'contextlib.closing', 'os.fdopen',
        'builtins.issubclass', 'builtins.id', 'builtins.str',
        'builtins.repr', 'builtins.bool', 'builtins.dict', 'builtins.list',
        'builtins.tuple', 'builtins.set', 'functools.partial',
        'builtins.getattr', 'builtins.callable', 'builtins.type',
        'builtins.iter', 'builtins.enumerate', 'builtins.zip', 'time.')
SAFE_METHODS = {'debug', 'info', 'warning', 'error', 'exception', 'critical',
                'log', 'append', 'isEnabledFor', 'getLogger', 'fileno'}
NOT_HOLDING = ('shutil.', 'lxml.etree.parse', 'os.', 'builtins.len',
               'builtins.isinstance', 'json.', 'pickle.', 'hashlib.',
               'builtins.list', 'builtins.bytes', 'builtins.str',
               'builtins.sorted', 'builtins.sum', 'builtins.repr',
               'builtins.hasattr', 'builtins.bool', 'builtins.type',
               'builtins.id', 'struct.', 'base64.', 'zlib.')
SKIP = ('hwp5.plat._uno', 'hwp5.plat.javax_transform',
        'hwp5.plat.jython_poifs')
TEMP_SUFFIX = ('hwp5', 'olefile')


def run(ctx):
    ctx.rule('S07.release', 'every acquired resource is released or handed '
             'over on every way out', 15)
    ctx.rule('S07.owner', 'a class that keeps a resource it acquired can '
             'release it', 1)
    s = Summaries(ctx)
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        if f.module.name in SKIP:
            continue
        for n in g.nodes:
            for kind, r in s.acquired(f, g, n):
                where = ctx.where(n)
                what = '%s %s' % (f.fullname, label(n, kind))
                bad = s.leak(f, g, n, kind, r)
                if bad is None:
                    ctx.ok('S07.release', what)
                else:
                    ctx.bad('S07.release', what, '%s: not released when %s'
                            % (kind, describe(g, bad)), where)
                owners(ctx, s, f, g, n, kind, r, where)


def owners(ctx, s, f, g, n, kind, r, where):
    """self.attr = acquired: some closing method of the class releases it"""
    if f.cls is None or kind == 'process':
        return
    for m in g.nodes:
        if m.kind == 'setattr' and m.obj.op in ('sym', 'inst') \
                and (
                    m.obj.op == 'inst' and m.obj.args[0] is f.cls or
                    m.obj is T('sym', 'self')) \
                and s.holds(m.value, r):
            ms = [x for x in ctx.prog.functions
                  if x.cls is not None and x.parent is None and
                  ctx.prog.is_subclass(f.cls, x.cls) and
                  x.name in CLOSING | {'__del__'}]
            if not ms:
                # the protocol object itself may be released by its users
                sub = [x for x in ctx.prog.functions if x.cls is not None
                       and ctx.prog.is_subclass(x.cls, f.cls) and
                       x.name in CLOSING]
                if not sub:
                    ctx.bad('S07.owner', '%s.%s' % (f.cls.fullname, m.attr),
                            '%s kept in an attribute that nothing closes'
                            % kind, where)
                    continue
            ok = not ms or any(
                mentions(ctx.graphs[x], m.attr) for x in ms)
            ctx.check(ok, 'S07.owner', '%s.%s' % (f.cls.fullname, m.attr),
                      '%s kept in an attribute that close() leaves open'
                      % kind, where)


def mentions(g, attr):
    for n in g.nodes:
        if n.kind in ('call', 'enter-with'):
            for t in term_values(n):
                for x in subterms(t):
                    if x.op == 'attr' and x.args[1] == attr:
                        return True
    return False


def label(n, kind):
    return '%s %s' % (kind, short(n.get('fn')) if n.kind == 'call'
                      else n.cls.name)


def describe(g, path):
    n = g.nodes[path[-1]]
    last = None
    for a, b in zip(path, path[1:]):
        l = [l for y, l in g.nodes[a].succ if y == b]
        if 'exc' in l and 'next' not in l:
            last = 'line %s fails' % g.nodes[a].loc.split(':')[-1]
        elif 'genexit' in l:
            last = 'the generator is closed at line %s' % \
                g.nodes[a].loc.split(':')[-1]
    if last:
        return last
    if n.kind == 'exit-return':
        return 'the function returns'
    if n.kind == 'exit-raise':
        return 'an exception leaves'
    return 'it is acquired again'


class Summaries:

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    # -- what a node acquires: (kind, term)
    def acquired(self, f, g, n):
        out = []
        if n.kind == 'new':
            if self.is_document(n.cls) and not self.lends(n):
                out.append(('document', n.result))
            return out
        if n.kind != 'call' or n.get('result') is None:
            return out
        r = n.result
        fn = n.fn
        name = fn.args[0] if fn.op == 'ext' else None
        if name in HANDLES:
            out.append(('handle', r))
        elif name in ('tempfile.mkstemp',):
            out.append(('temporary file', T('item', r, 1)))
            out.append(('descriptor', T('item', r, 0)))
        elif name == 'tempfile.mkdtemp':
            out.append(('temporary directory', r))
        elif name in ('os.open', 'os.dup'):
            out.append(('descriptor', r))
        elif name == 'os.pipe':
            out += [('descriptor', T('item', r, 0)),
                    ('descriptor', T('item', r, 1))]
        elif name == 'subprocess.Popen':
            out.append(('process', r))
            kw = dict(n.get('kw') or ())
            if kw.get('stdin') is not None and \
                    short(kw['stdin']) == 'subprocess.PIPE':
                out.append(('pipe', T('attr', r, 'stdin')))
        elif name is None:
            t = n.get('target')
            if isinstance(t, FuncInfo):
                k = self.acquires(t)
                if k:
                    out.append((k, r))
                elif fn.op == 'attr' and fn.args[1] == 'open' and \
                        not t.is_generator and self.opens_all('open'):
                    out.append(('handle', r))
            elif fn.op == 'attr' and fn.args[1] == 'open' and \
                    not isinstance(t, ClassInfo) and \
                    self.opens_all('open'):
                out.append(('handle', r))
        return out

    def opens_all(self, name):
        return True

    def lends(self, n):
        """a document over a storage that the caller provides"""
        return False

    def is_document(self, ci):
        cs = [self.ctx.prog.cls('hwp5.filestructure', 'Hwp5FileBase'),
              self.ctx.prog.cls('hwp5.filestructure', 'Hwp5File'),
              self.ctx.prog.cls('hwp5.storage.ole', 'OleStorage'),
              self.ctx.prog.cls('hwp5.plat.olefileio', 'OleStorage')]
        return any(c is not None and self.ctx.prog.is_subclass(ci, c)
                   for c in cs[:3]) or ci is cs[2]

    def acquires(self, f):
        """the kind of resource a function returns to its caller"""
        key = ('acq', f)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        g = self.ctx.graphs.get(f)
        if g is None or f.is_generator or f.module.name in SKIP:
            return None
        rets = set()
        for x in returns(g):
            rets |= set(alternatives(x.value))
        for n in g.nodes:
            for kind, r in self.acquired(f, g, n):
                if r in rets:
                    self.memo[key] = kind
                    return kind
        return None

    # -- does a term keep r alive (the receiver of t owns r)
    def holds(self, t, r, depth=0):
        if t is r:
            return True
        if depth > 12 or not isinstance(t, Term):
            return False
        if t.op == 'entered':
            return self.holds(t.args[0], r, depth + 1)
        if t.op in ('res', 'pure'):
            fn, args = fn_args(t)
            kw = tuple(v for k, v in t.args[3]) if t.op == 'res' and \
                len(t.args) > 3 else ()
            if r is fn or fn.op == 'attr' and fn.args[0] is r:
                return fn.args[1] == '__enter__' if fn.op == 'attr' else \
                    False
            if fn.op == 'ext' and (fn.args[0].startswith(NOT_HOLDING) and
                                   fn.args[0] != 'os.fdopen'):
                return False
            if fn.op == 'func' or fn.op == 'bound':
                fi = fn.args[0] if fn.op == 'func' else fn.args[1]
                if isinstance(fi, FuncInfo):
                    for i, a in enumerate(args):
                        if self.holds(a, r, depth + 1) and self.retains(
                                fi, i + (fn.op == 'bound')):
                            return True
                    return any(self.holds(a, r, depth + 1) for a in kw)
            return any(self.holds(a, r, depth + 1) for a in args + kw)
        if t.op == 'attr':
            # a bound method or a part of it
            return self.holds(t.args[0], r, depth + 1) and \
                t.args[1] not in ('name', 'closed', 'mode', 'returncode')
        if t.op == 'gencall':
            return any(self.holds(a, r, depth + 1)
                       for a in flatten(t.args[1:]))
        if t.op in ('cmp', 'not', 'and', 'or') and t.op != 'or':
            return False
        return any(self.holds(a, r, depth + 1) for a in flatten(t.args))

    def retains(self, fi, i):
        """the value returned by fi holds its i-th parameter"""
        key = ('ret', fi, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = True
        g = self.ctx.graphs.get(fi)
        ps = fi.params if hasattr(fi, 'params') else None
        p = param(fi, i)
        if g is None or p is None:
            return True
        if fi.is_generator:
            out = True
        else:
            out = any(self.holds(x.value, T('sym', p), 0)
                      for x in returns(g))
            # stored elsewhere by the callee
            out = out or any(
                n.kind in ('setattr', 'setitem') and
                self.holds(n.value, T('sym', p)) for n in g.nodes)
        self.memo[key] = out
        return out

    def lets_go(self, fi, i, kind):
        """fi releases its i-th parameter on every path"""
        key = ('rel', fi, i, kind)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        g = self.ctx.graphs.get(fi)
        p = param(fi, i)
        if g is None or p is None:
            return False
        out = self.leak(fi, g, None, kind, T('sym', p)) is None
        self.memo[key] = out
        return out

    # -- the effect of a node on r: 'release', 'handover' or None
    def effect(self, f, g, n, kind, r):
        k = n.kind
        if k == 'enter-with':
            cm = n.cm
            if self.wrapper(cm, r, kind):
                return 'release'
            if cm.op == 'gencall' and isinstance(cm.args[0], FuncInfo):
                for i, a in enumerate(flatten((cm.args[1],))):
                    if self.holds(a, r) and self.lets_go(
                            cm.args[0], i, kind):
                        return 'release'
            fn, args = fn_args(cm)
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] in ('enter_context', 'push'):
                return 'handover'
            return None
        if k == 'call':
            fn, args = n.fn, n.args
            kw = tuple(v for _, v in (n.get('kw') or ())
                       if isinstance(v, Term))
            if fn.op == 'attr' and self.is_it(fn.args[0], r, kind):
                m = fn.args[1]
                if kind == 'process':
                    if m in ('wait', 'communicate', '__exit__'):
                        return 'release'
                elif kind not in ('temporary file', 'temporary directory'):
                    if m in CLOSING:
                        return 'release'
            if kind == 'pipe' and fn.op == 'attr' and \
                    fn.args[0] is r.args[0] and r.op == 'attr' and \
                    fn.args[1] in ('communicate', '__exit__'):
                return 'release'
            if fn.op == 'ext':
                nm = fn.args[0]
                if any(self.is_it(a, r, kind) for a in args + kw):
                    if kind == 'temporary file' and (
                            nm in REMOVE or nm in ('os.rename',
                                                   'os.replace',
                                                   'shutil.move')):
                        return 'release'
                    if kind == 'temporary directory' and nm in RMDIR:
                        return 'release'
                    if kind == 'descriptor' and nm in ('os.close',
                                                       'os.fdopen'):
                        return 'release'
                    if nm in ('atexit.register', 'weakref.finalize'):
                        return 'release'
                if nm == 'io.open' and kind == 'descriptor' and any(
                        self.is_it(a, r, kind) for a in args):
                    return 'release'
                return None
            t = n.get('target')
            if isinstance(t, FuncInfo):
                off = offset(n)
                for i, a in enumerate(args):
                    if self.is_it(a, r, kind) or kind == 'pipe' and \
                            r.op == 'attr' and a is r.args[0]:
                        if self.lets_go(t, i + off, kind):
                            return 'release'
                        if self.keeps(t, i + off):
                            return 'handover'
                for kk, a in (n.get('kw') or ()):
                    if isinstance(a, Term) and self.is_it(a, r, kind):
                        j = index_of(t, kk)
                        if j is not None and self.lets_go(t, j, kind):
                            return 'release'
                return None
            if fn.op == 'attr' and fn.args[1] in (
                    'append', 'add', 'insert', 'push', 'enter_context',
                    'callback', 'setdefault', 'appendleft', 'put',
                    'extend', 'connect', 'addCleanup'):
                if any(self.holds(a, r) or self.holds(a, fnclose(r))
                       for a in args + kw):
                    return 'handover'
            if fn.op == 'attr' and fn.args[1] in CLOSING and \
                    self.holds(fn.args[0], r) and kind in (
                        'handle', 'document', 'descriptor', 'pipe'):
                return 'release'
            # a callable nobody knows gets the handle itself
            if fn.op not in ('ext', 'attr', 'func', 'bound', 'class') and \
                    any(self.is_it(a, r, kind) for a in args + kw):
                return 'release'
            return None
        if k == 'mkgen':
            # a lazy reader owns what it reads from
            if any(self.holds(a, r) for a in flatten((n.args,))) and not (
                    isinstance(n.target, FuncInfo) and
                    is_contextmanager(n.target)):
                return 'handover'
        if k in ('setattr', 'setitem'):
            v = n.get('value')
            if v is not None and self.holds(v, r):
                return 'handover'
            return None
        if k in ('exit-return', 'return'):
            v = n.get('value')
            if v is not None and self.holds(v, r) and not f.is_generator:
                return 'handover'
        return None

    def keeps(self, fi, i):
        """fi stores its i-th parameter somewhere that outlives the call"""
        key = ('keep', fi, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        g = self.ctx.graphs.get(fi)
        p = param(fi, i)
        if g is None or p is None:
            return False
        t = T('sym', p)
        for n in g.nodes:
            if n.kind in ('setattr', 'setitem') and self.holds(n.value, t):
                self.memo[key] = True
            elif n.kind == 'call' and isinstance(n.get('target'), FuncInfo):
                off = offset(n)
                for j, a in enumerate(n.args):
                    if self.holds(a, t) and self.keeps(n.target, j + off):
                        self.memo[key] = True
        return self.memo[key]

    def is_it(self, t, r, kind):
        if t is r:
            return True
        if t.op == 'entered':
            return self.is_it(t.args[0], r, kind) or \
                self.wrapper(t.args[0], r, kind)
        if t.op in ('phi', 'ite'):
            alts = [a for a in alternatives(t)
                    if not (is_const(a) and a.args[0] is None)]
            return len(alts) >= 1 and any(self.is_it(a, r, kind)
                                          for a in alts)
        return False

    def wrapper(self, cm, r, kind):
        """a context manager whose exit releases r"""
        if kind in ('temporary file', 'temporary directory'):
            return False
        if self.is_it(cm, r, kind):
            return True
        fn, args = fn_args(cm)
        if fn is not None and fn.op == 'ext' and fn.args[0] in (
                'contextlib.closing', 'os.fdopen', 'io.open',
                'io.TextIOWrapper', 'io.BufferedReader',
                'io.BufferedWriter') and args:
            return self.wrapper(args[0], r, kind)
        if kind == 'pipe' and cm is r.args[0]:
            return True
        if kind in ('handle', 'document') and cm.op in (
                'res', 'inst', 'pure', 'obj', 'new'):
            return self.holds(cm, r)
        return False

    # -- the search
    def leak(self, f, g, n, kind, r):
        if n is None:
            starts = [(g.entry, None)]
        else:
            starts = [(y, n.id) for y, l in n.succ
                      if l not in ('exc', 'genexit')]
        prev = {}
        st = []
        for y, p in starts:
            if y not in prev:
                prev[y] = p
                st.append(y)
        ev = self.valuation(r)
        while st:
            x = st.pop(0)
            m = g.nodes[x]
            if n is not None and x == n.id:
                return trace(prev, x)
            e = self.effect(f, g, m, kind, r)
            if n is None and e == 'handover':
                e = None        # a summary is about releasing
            if e is not None and (e == 'release' or m.kind != 'call'):
                continue
            if m.kind in ('exit-return', 'exit-raise'):
                return trace(prev, x)
            want = None
            if m.kind in ('branch', 'assert') and \
                    m.get('cond') is not None:
                want = value(m.cond, ev)
            for y, l in m.succ:
                if want is not None and l in ('T', 'F') and \
                        (l == 'T') != want:
                    continue
                if l == 'exc' and self.safe(m, r, kind):
                    continue
                if e is not None and l != 'exc':
                    continue
                if m.kind == 'assert' and l in ('F', 'exc') and n is None:
                    continue
                if y not in prev:
                    prev[y] = x
                    st.append(y)
        return None

    def valuation(self, r):
        def ev(c):
            if c is r:
                return True
            fn, a = fn_args(c)
            if fn is not None and fn.op == 'ext' and fn.args[0] == \
                    'builtins.hasattr' and a[0] is r:
                return cval(a[1]) in ('close', 'read', '__exit__') or None
            if c.op in ('phi', 'ite'):
                alts = alternatives(c)
                if r in alts and all(
                        a is r or is_const(a) and a.args[0] is None
                        for a in alts):
                    return True
            if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!='):
                a, b = c.args[1:]
                if is_const(a) and a.args[0] is None:
                    a, b = b, a
                if is_const(b) and b.args[0] is None and (
                        a is r or a.op in ('phi', 'ite') and
                        r in alternatives(a) and all(
                            z is r or is_const(z) and z.args[0] is None
                            for z in alternatives(a))):
                    return c.args[0] in ('is not', '!=')
            return None
        return ev

    def safe(self, m, r=None, kind=None):
        """a node whose failure is not an exit to be considered"""
        if m.kind in ('getattr', 'import', 'mkgen', 'exit-with', 'finally',
                      'setattr'):
            return True
        if m.kind == 'getitem':
            return is_const(m.key)
        if m.kind == 'enter-with':
            cm = m.cm
            if cm.op == 'gencall' and isinstance(cm.args[0], FuncInfo):
                return not self.fails(cm.args[0], enter=True)
            fn, a = fn_args(cm)
            return cm is r or fn is not None and fn.op == 'ext'
        if m.kind == 'new':
            c = self.ctx.prog.method(m.cls, '__init__')
            return c is None or not self.fails(c)
        if m.kind == 'call':
            fn = m.fn
            if fn.op == 'ext' and fn.args[0].startswith(SAFE):
                return True
            if fn.op == 'attr' and fn.args[1] in SAFE_METHODS:
                return True
            if fn.op == 'attr' and fn.args[0] is r and r is not None and \
                    fn.args[1] in ('seek', 'tell', 'flush', 'fileno'):
                return True
            t = m.get('target')
            if isinstance(t, FuncInfo):
                return t.is_generator or not self.fails(t)
        return False

    def fails(self, fi, enter=False):
        """an exception can leave fi (up to its first yield if enter)"""
        key = ('fails', fi, enter)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        g = self.ctx.graphs.get(fi)
        if g is None:
            return True
        seen = set()
        st = [g.entry]
        out = False
        while st and not out:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            m = g.nodes[x]
            if m.kind == 'exit-raise':
                out = True
            if enter and m.kind == 'yield' or m.kind == 'assert':
                st += [y for y, l in m.succ
                       if m.kind == 'assert' and l in ('T', 'next')]
                continue
            st += [y for y, l in m.succ if l != 'genexit' and
                   not (l == 'exc' and self.safe(m))]
        self.memo[key] = out
        return out


def offset(n):
    # arguments of a bound method start after self
    return 1 if n.fn.op == 'bound' or (
        n.fn.op == 'attr' and n.target.cls is not None) else 0


def is_contextmanager(f):
    return any('contextmanager' in ast.unparse(d)
               for d in f.node.decorator_list)


def fnclose(r):
    return T('attr', r, 'close')


def trace(prev, x):
    out = [x]
    while prev.get(out[-1]) is not None:
        if prev[out[-1]] in out:
            break
        out.append(prev[out[-1]])
    return out[::-1]


def flatten(xs):
    for x in xs:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (tuple, list)):
            for y in flatten(x):
                yield y


def param(fi, i):
    ps = params(fi)
    return ps[i] if ps is not None and i < len(ps) else None


def params(fi):
    a = fi.node.args
    return [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]


def index_of(fi, name):
    ps = params(fi)
    return ps.index(name) if ps and name in ps else None


U = 'hwp5/utils.py'
F = 'hwp5/filestructure.py'
witnesses = [
    ('no unlink on error', U, '''    finally:
        unlink_or_warning(path)
''', '''    except GeneratorExit:
        raise
    unlink_or_warning(path)
'''),
    ('unlink only', U, '''    fd, name = tempfile.mkstemp()
    with unlink_path(name):
        with os.fdopen(fd, 'w+') as f:
            yield f
''', '''    fd, name = tempfile.mkstemp()
    with os.fdopen(fd, 'w+') as f:
        yield f
    os.unlink(name)
'''),
    ('fd lost', U, '''        f = os.fdopen(fd, mode)
        try:''', '''        f = io.open(path, mode)
        try:'''),
    ('unlink_path', U, '''    try:
        yield
    finally:
        os.unlink(path)
''', '''    yield
    os.unlink(path)
'''),
    ('no wait', U, '''                try:
                    p.stdin.close()
                finally:
                    p.wait()
''', '''                p.stdin.close()
'''),
    ('pipe open', U, '''                try:
                    p.stdin.close()
                finally:
                    p.wait()
''', '''                p.wait()
'''),
    ('early wait', U, '''                try:
                    p.stdin.close()
                finally:
                    p.wait()
''', '''                p.stdin.close()
                p.wait()
'''),
    ('document', 'hwp5/proc/ls.py',
     'with closing(open_hwpfile(args)) as hwpfile:',
     'hwpfile = open_hwpfile(args)\n    if True:'),
    ('document main', 'hwp5/hwp5txt.py',
     'with closing(Hwp5File(hwp5path)) as hwp5file:',
     'hwp5file = Hwp5File(hwp5path)\n        if True:'),
    ('document not hwp', F, '''            if opened is not None:
                opened.close()
            errormsg''', '''            errormsg'''),
    ('probe', F, '''    with closing(olestg):
        return storage_is_hwp5file(olestg)
''', '''    result = storage_is_hwp5file(olestg)
    olestg.close()
    return result
'''),
    ('header', F, '''        f = self.open()
        try:
            return read_type(FileHeader, dict(), f)
        finally:
            f.close()
''', '''        f = self.open()
        value = read_type(FileHeader, dict(), f)
        f.close()
        return value
'''),
    ('inner', F, '''        with closing(self.wrapped.open()) as f:
            return decompress(f)
''', '''        return decompress(self.wrapped.open())
'''),
    ('bin stream', 'hwp5/xmlmodel.py', '''                try:
                    binary = bin_stream.read()
                finally:
                    bin_stream.close()
''', '''                binary = bin_stream.read()
'''),
    ('temp dump', 'hwp5/xmlmodel.py', '''        try:
            self.dump(tmpfile, **kwargs)
        except:
            tmpfile.close()
            raise
''', '''        self.dump(tmpfile, **kwargs)
'''),
    ('narrow', 'hwp5/xmlmodel.py', '''        except:
            tmpfile.close()
            raise
''', '''        except IOError:
            tmpfile.close()
            raise
'''),
    ('unpack', 'hwp5/storage/__init__.py', '''                with io.open(outpath, 'wb') as outfile:
''', '''                outfile = io.open(outpath, 'wb')
                if True:
'''),
    ('openssl', 'hwp5/plat/__init__.py', '''            os.unlink(name)''',
     '''            pass'''),
    ('package', 'hwp5/hwp5odt.py', '''    def close(self):
''', '''    def close(self):
        return

    def close_all(self):
'''),
    ('genexit', 'hwp5/xmldump_flat.py', '''    with hwp5file.fileheader.open() as f:
        yield STARTEVENT, ('FileHeader', {
        })
''', '''    f = hwp5file.fileheader.open()
    if True:
        yield STARTEVENT, ('FileHeader', {
        })
'''),
]
benign = [
    ('try finally', 'hwp5/proc/ls.py', '''    with closing(open_hwpfile(args)) as hwpfile:
''', '''    hwpfile = open_hwpfile(args)
    with closing(hwpfile):
'''),
    ('helper', F, [('''        f = self.open()
        try:
            return read_type(FileHeader, dict(), f)
        finally:
            f.close()
''', '''        return read_and_close(self.open())
'''), ('''class HwpFileHeader(object):''', '''def read_and_close(f):
    try:
        return read_type(FileHeader, dict(), f)
    finally:
        f.close()


class HwpFileHeader(object):''')]),
    ('context', U, '''    fd, name = tempfile.mkstemp()
    with unlink_path(name):
        with os.fdopen(fd, 'w+') as f:
            yield f
''', '''    fd, name = tempfile.mkstemp()
    try:
        with os.fdopen(fd, 'w+') as f:
            yield f
    finally:
        if name is not None:
            os.remove(name)
'''),
    ('dump', 'hwp5/xmlmodel.py', '''        except:
            tmpfile.close()
            raise

        tmpfile''', '''        except BaseException:
            tmpfile.close()
            raise
        result = tmpfile

        tmpfile'''),
    ('dump flag', 'hwp5/xmlmodel.py', '''        try:
            self.dump(tmpfile, **kwargs)
        except:
            tmpfile.close()
            raise
''', '''        done = False
        try:
            self.dump(tmpfile, **kwargs)
            done = True
        finally:
            if not done:
                tmpfile.close()
'''),
    ('opener', 'hwp5/hwp5txt.py', [(
        'with closing(Hwp5File(hwp5path)) as hwp5file:',
        'with closing(open_doc(hwp5path)) as hwp5file:'), (
        'def main():', '''def open_doc(path):
    return Hwp5File(path)


def main():''')]),
    ('close helper', F, [('''        f = self.open()
        try:
            return read_type(FileHeader, dict(), f)
        finally:
            f.close()
''', '''        f = self.open()
        try:
            return read_type(FileHeader, dict(), f)
        finally:
            quietly_close(f)
'''), ('''class HwpFileHeader(object):''', '''def quietly_close(f):
    try:
        f.close()
    except Exception as e:
        logger.warning('%s', e)


class HwpFileHeader(object):''')]),
]
