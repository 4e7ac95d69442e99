# -*- coding: utf-8 -*-
"""X04 output is a function of the document alone."""
import ast
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import walk
from ..prog import iter_scope
from ._util import short, fn_args
from . import C06
from .C03 import sheets, calls_in

TECHNIQUE = ('audit of every reference to a source of variation (clock, '
             'random numbers, identities, hashes, environment, platform) in '
             'the functions a conversion can use, with a local use analysis '
             'for logging; value-flow analysis of sets and directory '
             'listings into ordered results; effect analysis of state that '
             'outlives a document; audit of the stylesheets')
LEVEL_NOTE = ('Time stamps which zipfile enters in a package are not '
              'considered content. The order of sets is followed inside a '
              'function, through attributes of a class and through the '
              'results of functions, not through parameters. hwp5spec and '
              'the window of hwp5view are left out: they convert nothing.')
EXPLANATION = '''All functions of the package but those of hwp5spec and
hwp5view are searched for references to the clock, random numbers, process and
object identities, hashes, host and locale; what is only logged may vary.
Environment variables are read only by the names that configure the program.
What is made by iterating over a set or an unsorted directory listing reaches
no result unless an operation that does not depend on the order (sorted, min,
len, membership, another set) comes between. No module variable, class member,
default argument or descriptor is changed while a document is processed except
as a memo of its key (the rule of C06). The stylesheets use no generated
identifiers, dates or random numbers as content.'''

LEFT_OUT = ('hwp5.binspec', 'hwp5.hwp5view')
VARIABLE = ('time.', 'random.', 'secrets.', 'uuid.', 'locale.', 'getpass.',
            'resource.', 'platform.')
VARIABLE_NAMES = {
    'builtins.id', 'builtins.hash', 'datetime.datetime.now',
    'datetime.datetime.utcnow', 'datetime.datetime.today',
    'datetime.date.today', 'datetime.now', 'os.getpid', 'os.getppid',
    'os.urandom', 'os.times', 'os.getlogin', 'os.getuid', 'os.uname',
    'os.getcwd', 'os.getcwdu', 'os.path.getmtime', 'os.path.getctime',
    'os.path.getatime', 'os.stat', 'os.fstat', 'os.lstat', 'os.cpu_count',
    'socket.gethostname', 'socket.getfqdn', 'threading.get_ident',
    'threading.current_thread', 'threading.get_native_id',
    'sys.getrefcount', 'gc.get_objects', 'gc.get_count',
    'concurrent.futures.as_completed', 'weakref.WeakSet',
    'multiprocessing.cpu_count', 'multiprocessing.current_process'}
# a fixed function of its arguments
FIXED = {'time.strptime', 'time.struct_time', 'time.gmtime',
         'time.strftime', 'time.sleep', 'uuid.UUID', 'uuid.uuid5',
         'uuid.uuid3', 'uuid.NAMESPACE_URL', 'uuid.NAMESPACE_DNS',
         'platform.system', 'platform.python_implementation',
         'locale.setlocale', 'locale.LC_ALL'}
NEEDS_ARG = {'time.gmtime': 1, 'time.strftime': 2}
LISTINGS = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob',
            'glob.iglob', 'pathlib.Path.iterdir', 'os.fwalk'}
SETS = {'builtins.set', 'builtins.frozenset'}
UNORDERED = {'builtins.sorted', 'builtins.min', 'builtins.max',
             'builtins.len', 'builtins.sum', 'builtins.any', 'builtins.all',
             'builtins.set', 'builtins.frozenset', 'builtins.bool',
             'builtins.isinstance', 'collections.Counter'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference',
          'copy'}
SETUPDATES = {'add', 'discard', 'remove', 'update', 'difference_update',
              'intersection_update', 'issubset', 'issuperset',
              'isdisjoint', 'union', 'intersection', 'difference', 'clear',
              'symmetric_difference', '__contains__'}
LOGGERS = {'debug', 'info', 'warning', 'warn', 'error', 'exception',
           'critical', 'log'}
CONFIG = {'PAGER', 'PATH', 'HOME', 'LANG', 'LANGUAGE', 'DISPLAY', 'TERM',
          'TMPDIR', 'TEMP', 'TMP', 'NO_COLOR', 'COLUMNS', 'LINES'}


def functions(ctx):
    for f in ctx.prog.functions:
        nm = f.module.name
        if not any(nm == x or nm.startswith(x + '.') for x in LEFT_OUT):
            yield f


def run(ctx):
    prog = ctx.prog
    variation_rule(ctx)
    environ_rule(ctx)
    order_rule(ctx)
    R = 'X04.state'
    ctx.rule(R, 'processing a document leaves nothing behind which the next '
             'one would see', 12)
    C06.state_rule(ctx, R, lambda f: not any(
        f.module.name.startswith(x) for x in LEFT_OUT))
    C06.object_rule(ctx, R, lambda f: not any(
        f.module.name.startswith(x) for x in LEFT_OUT))
    C06.iterator_rule(ctx, 'X04.iterators')
    sheet_rule(ctx)


# ---------------------------------------------------------------- variation

def is_logger_call(prog, f, c):
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
        and c.func.attr in LOGGERS and is_logger(prog, f, c.func.value)


def is_logger(prog, f, e):
    if isinstance(e, ast.Call):
        return any(x == ('ext', 'logging.getLogger') or x[1] ==
                   'logging.getLogger' for x in
                   prog.resolve_expr(f.module, e.func, f) or ()
                   if x[0] == 'ext')
    if isinstance(e, ast.Attribute):
        return 'log' in e.attr.lower()
    if isinstance(e, ast.Name):
        if e.id in f.local_names:
            for x in iter_scope(f.node):
                if isinstance(x, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in x.targets) and not isinstance(
                            x.value, ast.Name):
                    return is_logger(prog, f, x.value)
            return False
        for s in f.module.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == e.id
                    for t in s.targets) and isinstance(s.value, ast.Call):
                return is_logger(prog, f, s.value)
        for x in prog.resolve_expr(f.module, e, f) or ():
            if x[0] == 'ext' and x[1].startswith('logging'):
                return True
    return False


def own_nodes(f):
    """(node, parents) of the function itself, nested functions left out"""
    st = [(x, ()) for x in reversed(f.node.body if isinstance(
        f.node.body, list) else [f.node.body])]
    while st:
        x, ps = st.pop()
        yield x, ps
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.Lambda, ast.ClassDef)):
            continue
        for y in ast.iter_child_nodes(x):
            st.append((y, ps + (x,)))


def only_logged(prog, f, ps, names=frozenset()):
    """the value at this place is only logged or dropped"""
    for p in reversed(ps):
        if is_logger_call(prog, f, p):
            return True
    if not ps:
        return True
    last = ps[-1]
    if isinstance(last, ast.Expr):
        return True
    for p in reversed(ps):
        if isinstance(p, ast.keyword) and p.arg == 'date_time':
            return True
        if isinstance(p, ast.Call) and any(
                x[0] == 'ext' and x[1].endswith('ZipInfo')
                for x in prog.resolve_expr(f.module, p.func, f) or ()):
            return True
        if isinstance(p, (ast.Assign, ast.AugAssign)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if not all(isinstance(t, ast.Name) and t.id in f.local_names
                       for t in ts):
                return False
            new = {t.id for t in ts}
            if new <= names:
                return True
            return all(only_logged(prog, f, qs, names | new)
                       for n in new for y, qs in own_nodes(f)
                       if isinstance(y, ast.Name) and y.id == n and
                       isinstance(y.ctx, ast.Load))
        if isinstance(p, ast.stmt):
            return False
    return False


def variable(prog, f, x):
    """dotted name of the source of variation this expression names"""
    try:
        found = prog.resolve_expr(f.module, x, f) or ()
    except Exception:
        return None
    for e in found:
        if e[0] != 'ext':
            continue
        d = e[1]
        if d in FIXED and d not in NEEDS_ARG:
            continue
        if d in VARIABLE_NAMES or d in NEEDS_ARG or any(
                d.startswith(p) and len(d) > len(p) for p in VARIABLE):
            return d
    return None


def variation_rule(ctx):
    R = 'X04.sources'
    ctx.rule(R, 'nothing a conversion computes depends on the clock, on '
             'random numbers, identities, hashes or the machine', 300)
    prog = ctx.prog
    for f in functions(ctx):
        seen = 0
        for x, ps in own_nodes(f):
            if not isinstance(x, (ast.Name, ast.Attribute)) or \
                    not isinstance(x.ctx, ast.Load):
                continue
            if isinstance(x, ast.Name) and (
                    x.id in f.local_names or x.id in f.params):
                continue
            if ps and isinstance(ps[-1], ast.Attribute) and \
                    variable(prog, f, ps[-1]):
                continue
            d = variable(prog, f, x)
            if d is None:
                continue
            if d in NEEDS_ARG and ps and isinstance(ps[-1], ast.Call) and \
                    len(ps[-1].args) >= NEEDS_ARG[d]:
                continue
            call = ps
            if ps and isinstance(ps[-1], ast.Call) and ps[-1].func is x:
                call = ps[:-1]
            # tests of identity, keys of local tables
            if d in ('builtins.id', 'builtins.hash') and call and (
                    isinstance(call[-1], (ast.Compare, ast.Subscript)) or
                    f.name in ('__hash__', '__eq__') or
                    isinstance(call[-1], ast.Call) and isinstance(
                        call[-1].func, ast.Attribute) and
                    call[-1].func.attr in ('add', 'discard', 'get',
                                           'remove', 'pop')):
                continue
            if f.name == '__repr__' and d == 'builtins.id':
                continue
            seen += 1
            ctx.check(only_logged(prog, f, call), R,
                      '%s %s' % (f.fullname, d),
                      '%s makes the result differ from run to run' % d,
                      '%s:%d' % (f.module.name, x.lineno))
        if not seen:
            ctx.ok(R, f.fullname)


def environ_rule(ctx):
    R = 'X04.environ'
    ctx.rule(R, 'environment variables only configure the program', 3)
    prog = ctx.prog
    for f in functions(ctx):
        for x, ps in own_nodes(f):
            if not isinstance(x, (ast.Name, ast.Attribute)):
                continue
            ds = [e[1] for e in prog.resolve_expr(f.module, x, f) or ()
                  if e[0] == 'ext' and e[1] in (
                      'os.environ', 'os.getenv', 'os.environb')] \
                if not (isinstance(x, ast.Name) and
                        x.id in f.local_names) else []
            if not ds or not ps:
                continue
            p = ps[-1]
            key = None
            if isinstance(p, ast.Subscript):
                key = p.slice
            elif isinstance(p, ast.Compare) and p.comparators and \
                    p.comparators[0] is x:
                key = p.left
            elif isinstance(p, ast.Call) and p.func is x and p.args:
                key = p.args[0]
            elif isinstance(p, ast.Attribute) and len(ps) > 1 and \
                    isinstance(ps[-2], ast.Call) and ps[-2].func is p and \
                    p.attr in ('get', 'setdefault', 'pop',
                               '__getitem__') and ps[-2].args:
                key = ps[-2].args[0]
            if key is None:
                continue        # the whole environment, for a process
            nm = None
            if isinstance(key, ast.Constant):
                nm = key.value
            elif isinstance(key, ast.Name):
                for e in prog.resolve_expr(f.module, key, f) or ():
                    if e[0] == 'expr' and isinstance(
                            e[-1], ast.Constant):
                        nm = e[-1].value
                if nm is None:
                    continue
            ok = isinstance(nm, str) and (nm.startswith('PYHWP') or
                                          nm.startswith('LC_') or
                                          nm in CONFIG)
            ctx.check(ok, R, '%s %s' % (f.fullname, nm),
                      'the environment variable %s, which is no setting of '
                      'the program, is used' % nm,
                      '%s:%d' % (f.module.name, x.lineno))


# -------------------------------------------------------------------- order

class Order(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.funcs = {}
        self.attrs = {}
        for f, g in ctx.graphs.items():
            for n in g.nodes:
                if n.kind == 'setattr' and f.cls is not None and \
                        isinstance(n.get('value'), Term) and \
                        n.obj.op == 'sym' and f.params and \
                        n.obj.args[0] == f.params[0]:
                    nm = n.get('name') or n.get('attr')
                    self.attrs.setdefault((f.cls, nm), []).append(n.value)

    def of_func(self, f):
        if f not in self.funcs:
            self.funcs[f] = False
            g = self.ctx.graphs.get(f)
            if g is not None and not f.is_generator:
                self.funcs[f] = any(
                    self.unordered(n.value) for n in g.nodes
                    if n.kind == 'return' and
                    isinstance(n.get('value'), Term))
        return self.funcs[f]

    def unordered(self, t, depth=0):
        """an iterable whose order is not determined"""
        if depth > 8 or not isinstance(t, Term) or t in self.sorted:
            return False
        if t.op == 'set':
            return len(t.args) > 1
        if t.op == 'container':
            return t.args[0] == 'set'
        if t.op == 'comp':
            return t.args[0] == 'set'
        if t.op == 'ite':
            return any(self.unordered(a, depth + 1) for a in t.args[1:]
                       if isinstance(a, Term))
        if t.op == 'phi':
            return any(self.unordered(a, depth + 1) for a in t.args
                       if isinstance(a, Term))
        if t.op == 'loopvar':
            return any(self.unordered(a, depth + 1) for a in t.args
                       if isinstance(a, Term))
        if t.op == 'bin' and t.args[0] in ('-', '&', '|', '^'):
            return any(self.unordered(a, depth + 1) for a in t.args[1:]
                       if isinstance(a, Term))
        if t.op == 'gval':
            return isinstance(t.args[0], (set, frozenset))
        if t.op == 'attr':
            o, nm = t.args[0], t.args[1]
            for (c, k), vs in self.attrs.items():
                if k == nm and o.op in ('inst', 'sym'):
                    cls = o.args[0] if o.op == 'inst' else None
                    if o.op == 'sym' and o.args[0] not in ('self', 'cls'):
                        continue
                    if o.op == 'inst' and cls is not c:
                        continue
                    if self.here is not None and o.op == 'sym' and \
                            self.here.cls is not c:
                        continue
                    if any(self.unordered(v, depth + 1) for v in vs):
                        return True
            return False
        fn, args = fn_args(t)
        if fn is None:
            return False
        if fn.op == 'ext':
            if fn.args[0] in SETS or fn.args[0] in LISTINGS:
                return True
            if fn.args[0] in ('builtins.list', 'builtins.tuple',
                              'builtins.iter', 'builtins.reversed',
                              'builtins.enumerate', 'builtins.map',
                              'builtins.filter', 'builtins.zip'):
                return any(self.unordered(a, depth + 1) for a in args
                           if isinstance(a, Term))
            return False
        if fn.op == 'func':
            return self.of_func(fn.args[0])
        if fn.op == 'attr' and fn.args[1] in SETOPS:
            return self.unordered(fn.args[0], depth + 1)
        return False

    def in_turn(self, t):
        """arguments of a generator which delivers something for each of
        their items, in their order"""
        f, args = t.args[0], t.args[1]
        f = f.args[0] if isinstance(f, Term) and f.op == 'func' else f
        g = self.ctx.graphs.get(f)
        if g is None or not isinstance(args, tuple):
            return []
        out = []
        for p, a in zip(f.params, args):
            if not isinstance(a, Term):
                continue
            for n in g.nodes:
                if n.kind != 'next' or n.iter.op != 'sym' or \
                        n.iter.args[0] != p:
                    continue
                seen = walk(g, [y for y, l in n.succ if l == 'T'],
                            lambda c: None, stops={n.id})
                if any(g.nodes[x].kind == 'yield' for x in seen
                       if x != n.id):
                    out.append(a)
                    break
        return out

    here = None
    sorted = frozenset()

    def tainted(self, t):
        """a part of the value depends on such an order"""
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, (tuple, list)):
                st.extend(x)
                continue
            if not isinstance(x, Term):
                continue
            fn, args = fn_args(x)
            if fn is not None and fn.op == 'ext' and \
                    fn.args[0] in UNORDERED:
                continue
            if x.op == 'comp' and x.args[0] == 'set':
                continue
            if x.op in ('cmp', 'not', 'in'):
                continue
            if x.op == 'comp' and any(
                    y.op == 'elem' and self.unordered(y.args[0])
                    for y in subterms(x)):
                return x
            if x.op == 'elem' and self.unordered(x.args[0]):
                return x
            if fn is not None and fn.op == 'ext' and fn.args[0] in (
                    'builtins.list', 'builtins.tuple', 'builtins.iter',
                    'builtins.enumerate', 'builtins.next',
                    'builtins.str', 'builtins.repr', 'builtins.map',
                    'builtins.zip', 'builtins.reversed', 'json.dumps',
                    'builtins.unicode') and any(
                        isinstance(a, Term) and self.unordered(a)
                        for a in args):
                return x
            if fn is not None and fn.op == 'attr' and fn.args[1] in (
                    'join', 'extend', 'writelines', 'format') and any(
                        isinstance(a, Term) and self.unordered(a)
                        for a in args):
                return x
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] == 'pop' and not args and \
                    self.unordered(fn.args[0]):
                return x
            if x.op == 'bin' and x.args[0] == '%' and any(
                    self.unordered(a) for a in x.args[2:]):
                return x
            if x.op == 'item' and self.unordered(x.args[0]):
                return x
            if x.op == 'gencall':
                for a in self.in_turn(x):
                    if self.unordered(a):
                        return x
                    st.append(a)
                continue
            if x.op == 'sub':
                st.append(x.args[0])      # what is looked up by the item
                if len(x.args) > 1:
                    st.append(x.args[1])
                continue
            st.extend(x.args)
        return None


def order_rule(ctx):
    R = 'X04.order'
    ctx.rule(R, 'no result depends on the order of a set or of an unsorted '
             'directory listing', 300)
    o = Order(ctx)
    for f in functions(ctx):
        g = ctx.graphs.get(f)
        if g is None:
            continue
        o.here = f
        o.sorted = {n.fn.args[0] for n in g.nodes if n.kind == 'call' and
                    n.fn.op == 'attr' and n.fn.args[1] == 'sort'}
        bad = None
        for n in g.nodes:
            vs = []
            if n.kind in ('yield', 'return', 'setitem', 'setattr', 'raise'):
                vs = [n.get('value')]
                if n.kind == 'setitem':
                    vs.append(n.get('key'))
                    if keyed(n):
                        vs = []
                if n.kind == 'raise':
                    vs = []
            elif n.kind == 'call':
                fn = n.fn
                if fn.op == 'attr' and (fn.args[1] in SETUPDATES or
                                        fn.args[1] in LOGGERS):
                    continue
                if fn.op == 'ext' and fn.args[0] in UNORDERED:
                    continue
                vs = list(n.get('args') or ()) + [
                    v for _k, v in (n.get('kw') or ())]
                if fn.op == 'attr' and fn.args[1] == 'pop' and not vs and \
                        o.unordered(fn.args[0]):
                    bad = (n, fn.args[0])
                if fn.op == 'attr' and fn.args[1] in (
                        'join', 'extend', 'writelines', 'write') and any(
                            o.unordered(v) for v in vs):
                    bad = (n, vs[0])
            elif n.kind == 'new':
                vs = list(n.get('args') or ())
            for v in vs:
                if isinstance(v, Term):
                    hit = o.tainted(v)
                    if hit is not None:
                        bad = (n, hit)
            # a sequence handed out
            if n.kind == 'yield' and bad is None:
                pass
        if bad is None:
            ctx.ok(R, f.fullname)
        else:
            ctx.bad(R, f.fullname, '%s comes in no determined order' %
                    short(bad[1], 80), ctx.where(bad[0]))


def keyed(n):
    return False


# -------------------------------------------------------------- stylesheets

def sheet_rule(ctx):
    R = 'X04.sheets'
    ctx.rule(R, 'stylesheets add no generated identifier, date or random '
             'number', 4)
    for rel, (path, root) in sorted(sheets(ctx).items()):
        if root is None:
            continue
        bad = None
        for e in root.walk():
            for k, v in e.attrs.items():
                for fn in ('date:date-time', 'date:date', 'date:time',
                           'date:seconds', 'math:random',
                           'random:random-sequence', 'current-dateTime',
                           'current-date', 'current-time',
                           'fn:current-dateTime', 'date:year',
                           'date:month-name', 'date:day-in-month',
                           'unparsed-text', 'environment-variable'):
                    if calls_in(v, fn):
                        bad = (e, fn)
                if calls_in(v, 'generate-id') and (
                        e.xsl == 'value-of' or e.xsl is None or
                        e.xsl == 'with-param' and '=' not in v and
                        '[' not in v):
                    if '=' not in v:
                        bad = (e, 'generate-id')
        ctx.check(bad is None, R, rel, '' if bad is None else
                  '%s() differs from run to run' % bad[1],
                  '' if bad is None else '%s:%d' % (rel, bad[0].line))


ODT = 'hwp5/hwp5odt.py'
FS = 'hwp5/storage/fs.py'
XM = 'hwp5/xmlmodel.py'
XF = 'hwp5/xmlformat.py'
UT = 'hwp5/utils.py'
F = 'hwp5/filestructure.py'
HTML = 'hwp5/hwp5html.py'

witnesses = [
    ('directory order', FS,
     "iter(sorted(os.listdir(self.path)))", "iter(os.listdir(self.path))"),
    ('directory order kept in a list', FS,
     "return iter(sorted(os.listdir(self.path)))",
     "names = [n for n in os.listdir(self.path)]\n"
     "        for n in names:\n            yield n"),
    ('last document remembered', F,
     "    def get_version(self):\n",
     "    def get_version(self):\n"
     "        global last_version\n        last_version = self.value\n"),
    ('ids go on counting', XM, [
        ("def give_elements_unique_id(event_prefixed_mac):\n"
         "    paragraph_id = 0\n",
         "paragraph_id = 0\n\n\n"
         "def give_elements_unique_id(event_prefixed_mac):\n"
         "    global paragraph_id\n")]),
    ('identity as id', XM, "attributes['table_id'] = table_id",
     "attributes['table_id'] = id(attributes)"),
    ('hash as id', XM, "attributes['table_id'] = table_id",
     "attributes['table_id'] = hash(model) & 0xffff"),
    ('shared counter', XM, [
        ("def give_elements_unique_id(event_prefixed_mac):\n",
         "import itertools\nids = itertools.count()\n\n\n"
         "def give_elements_unique_id(event_prefixed_mac):\n"),
        ("attributes['table_id'] = table_id",
         "attributes['table_id'] = next(ids)")]),
    ('pictures by a set', ODT,
     "            for name in bindata:\n",
     "            for name in set(bindata):\n"),
    ('attributes by a set', XF,
     "            for n, v in item[1].items():\n",
     "            for n, v in set(item[1].items()):\n"),
    ('attribute pairs by a set', XF,
     "    ntvs = plainvalues.items()\n",
     "    ntvs = set(plainvalues.items())\n"),
    ('names by a set in a helper', XF, [
        ("            for n, v in item[1].items():\n",
         "            for n in unique(item[1]):\n"
         "                v = item[1][n]\n"),
        ("def xmlevents_to_textchunks(xmlevents):\n",
         "def unique(names):\n    return frozenset(names)\n\n\n"
         "def xmlevents_to_textchunks(xmlevents):\n")]),
    ('time in the manifest', ODT,
     "                path = 'bindata/' + name\n",
     "                import time\n"
     "                path = 'bindata/%d-' % time.time() + name\n"),
    ('random name', ODT,
     "                path = 'bindata/' + name\n",
     "                import uuid\n"
     "                path = 'bindata/' + uuid.uuid4().hex + name\n"),
    ('user in the output', XF,
     "            yield '<'\n            yield item[0]\n",
     "            import os\n            yield '<'\n"
     "            yield item[0] + os.environ.get('USER', '')\n"),
]

benign = [
    ('sorted later', FS,
     "return iter(sorted(os.listdir(self.path)))",
     "names = os.listdir(self.path)\n        names.sort()\n"
     "        return iter(names)"),
    ('time is logged', ODT,
     "                path = 'bindata/' + name\n",
     "                import time\n"
     "                started = time.time()\n"
     "                path = 'bindata/' + name\n"
     "                logger.debug('%s', time.time() - started)\n"),
    ('a set for membership', XF,
     "            for n, v in item[1].items():\n",
     "            known = set(item[1])\n"
     "            for n, v in item[1].items():\n"
     "                assert n in known and len(known) > 0\n"),
    ('sorted set', XF,
     "            for n, v in item[1].items():\n",
     "            for n, v in sorted(set(item[1].items())):\n"),
    ('setting', XF,
     "            yield '<'\n            yield item[0]\n",
     "            import os\n            yield '<'\n"
     "            if os.environ.get('PYHWP_DEBUG'):\n"
     "                logger.debug('%s', item[0])\n"
     "            yield item[0]\n"),
]
