# -*- coding: utf-8 -*-
"""C03 external programs and parsers are used safely."""
import os
from ..terms import T, Term, is_const, cval, subterms, alternatives

from .. import xsl
from ._util import short, fn_args
from .R10 import entry_points

TECHNIQUE = ('audit of every process start, code evaluation, network use and '
             'file-system effect in the flow graphs of the whole package, '
             'with an interprocedural origin analysis of program arguments '
             'and of paths; audit of the stylesheets for instructions that '
             'reach outside the document')
LEVEL_NOTE = ('What external programs and the parsers of lxml do with the '
              'content they are given is trusted; the uno, javax and gsf '
              'backends are judged for processes and files only.')
EXPLANATION = '''Every call that can start a program, evaluate text, open a
connection or change the file system is found through the resolved names. A
program is started from a sequence whose first element is fixed by the program,
its configuration or the environment; no shell takes part; what is read from a
document does not become an argument. Code is evaluated only from what the user
typed. No network module is used, parsers keep their access to the network
closed and the xmllint filters are told so. The path of everything created,
overwritten or removed is traced back through assignments, parameters and
attributes to what the user named or to a temporary file; names from the
document pass the escaping function, and no place is fixed or predictable. The
stylesheets neither load nor write documents of their own.'''

STARTERS = {'subprocess.Popen', 'subprocess.call', 'subprocess.check_call',
            'subprocess.check_output', 'subprocess.run'}
SHELLS = {'os.system', 'os.popen', 'subprocess.getoutput',
          'subprocess.getstatusoutput', 'os.popen2', 'os.popen3',
          'commands.getoutput', 'commands.getstatusoutput', 'pty.spawn',
          'asyncio.create_subprocess_shell', 'os.startfile'}
CODE = {'builtins.eval', 'builtins.exec', 'builtins.execfile',
        'pickle.load', 'pickle.loads', 'cPickle.load', 'cPickle.loads',
        'marshal.load', 'marshal.loads', 'yaml.load', 'shelve.open',
        'builtins.__import__', 'importlib.import_module', 'runpy.run_path',
        'code.interact', 'types.FunctionType', 'builtins.compile'}
NETWORK = ('socket.', 'urllib.request', 'urllib2.', 'http.', 'httplib.',
           'ftplib.', 'smtplib.', 'telnetlib.', 'requests.', 'webbrowser.',
           'urllib.urlopen', 'urllib.urlretrieve', 'xmlrpc', 'asyncio.open_',
           'aiohttp.', 'socketserver.', 'poplib.', 'imaplib.', 'nntplib.')
LOCAL_URL = ('urllib.request.pathname2url', 'urllib.request.url2pathname')
# effect on a path: name -> index of the paths concerned
EFFECTS = {'os.mkdir': (0,), 'os.makedirs': (0,), 'os.unlink': (0,),
           'os.remove': (0,), 'os.rmdir': (0,), 'os.removedirs': (0,),
           'os.rename': (0, 1), 'os.replace': (0, 1), 'os.renames': (0, 1),
           'os.symlink': (1,), 'os.link': (1,), 'os.truncate': (0,),
           'os.chmod': (0,), 'os.utime': (0,), 'shutil.rmtree': (0,),
           'shutil.copy': (1,), 'shutil.copy2': (1,),
           'shutil.copyfile': (1,), 'shutil.copytree': (1,),
           'shutil.move': (0, 1), 'logging.FileHandler': (0,),
           'logging.handlers.RotatingFileHandler': (0,)}
OPENERS = {'builtins.open', 'io.open', 'codecs.open', 'io.FileIO',
           'zipfile.ZipFile', 'tarfile.open', 'gzip.open', 'bz2.open',
           'tarfile.TarFile', 'gzip.GzipFile'}
SAFE = {'hwp5.storage:item_filename', 'binascii.b2a_hex',
        'binascii.hexlify', 'builtins.int', 'builtins.len', 'builtins.hex',
        'lxml.etree.XSLT.strparam', 'builtins.bool'}


def run(ctx):
    org = Origins(ctx)
    process_rule(ctx, org)
    code_rule(ctx)
    network_rule(ctx)
    file_rule(ctx, org)
    sheet_rule(ctx)


def ext_calls(ctx):
    for f, g in ctx.graphs.items():
        for n in g.nodes:
            if n.kind in ('call', 'new') and n.get('fn') is not None:
                for a in alternatives(n.fn):
                    if a.op == 'ext':
                        yield f, g, n, a.args[0]


def kwargs(n):
    return {k: v for k, v in (n.get('kw') or ())}


# ------------------------------------------------------------------ origins

class Origins(object):
    """where a value comes from: a set of
    'document' (a name or content read from the document),
    'fixed' (only constants), 'predictable' (a shared temporary directory),
    'named' (the user, a parameter of the interface, a temporary file)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.sites = None
        self.stores = None

    def callers(self, f):
        if self.sites is None:
            self.sites = {}
            for h, g in self.ctx.graphs.items():
                for n in g.nodes:
                    if n.kind in ('call', 'new', 'mkgen'):
                        t = n.get('target')
                        if t is not None:
                            self.sites.setdefault(t, []).append((h, n))
                    # partial(f, a...) and handed-on functions
                    for v in (n.get('args') or ()):
                        if isinstance(v, Term) and v.op == 'func':
                            self.sites.setdefault(v.args[0], []).append(
                                (h, None if n.kind != 'call' else (n, v)))
        return self.sites.get(f, [])

    def param(self, f, name, seen):
        key = (f, name)
        if key in self.memo:
            return self.memo[key]
        if key in seen:
            return {'named'}
        seen = seen | {key}
        out = set()
        ps = list(f.params)
        for h, n in self.callers(f):
            if n is None:
                continue
            if isinstance(n, tuple):
                n, ref = n
                if n.fn.op == 'ext' and n.fn.args[0] == \
                        'functools.partial' and n.args and \
                        n.args[0] is ref:
                    args = list(n.args[1:])
                else:
                    continue
            else:
                args = list(n.args)
                if f.cls is not None and ps and ps[0] in ('self', 'cls') \
                        and not (args and n.kind == 'call' and
                                 len(args) == len(ps)):
                    args = [None] + args
            if any(isinstance(a, Term) and a.op in ('star', 'starred')
                   for a in args):
                continue
            v = None
            if name in ps and ps.index(name) < len(args):
                v = args[ps.index(name)]
            kw = {k: x for k, x in (n.get('kw') or ())}
            if name in kw:
                v = kw[name]
            if v is not None:
                out |= self.of(h, v, seen)
        out = out or {'named'}
        self.memo[key] = out
        return out

    def attribute(self, cls, name, seen):
        key = (cls, name)
        if key in self.memo:
            return self.memo[key]
        if key in seen:
            return {'named'}
        seen = seen | {key}
        if self.stores is None:
            self.stores = {}
            for h, g in self.ctx.graphs.items():
                for n in g.nodes:
                    if n.kind == 'setattr' and h.cls is not None and \
                            n.obj.op in ('inst', 'sym'):
                        self.stores.setdefault(
                            (h.cls, n.get('attr') or n.get('name')),
                            []).append((h, n))
        out = set()
        for h, n in self.stores.get(key, ()):
            out |= self.of(h, n.value, seen)
        out = out or {'named'}
        self.memo[key] = out
        return out

    def of(self, f, t, seen=frozenset(), depth=0):
        if not isinstance(t, Term) or depth > 30:
            return {'named'}
        rec = lambda x: self.of(f, x, seen, depth + 1)
        if is_const(t):
            return {'fixed'}
        op = t.op
        if op == 'sym':
            nm = t.args[0]
            if isinstance(nm, str) and nm in f.params:
                return self.param(f, nm, seen)
            h = f.parent
            while h is not None:
                if nm in h.params:
                    return self.param(h, nm, seen)
                h = h.parent
            return {'named'}
        if op in ('phi', 'ite'):
            out = set()
            for a in alternatives(t):
                if a is not t:
                    out |= rec(a)
            # a constant alternative is judged with the others
            return out or {'named'}
        if op == 'elem':
            src = rec(t.args[0])
            it = t.args[0]
            if is_const(it) or it.op in ('list', 'tuple', 'container'):
                return src
            return {'document'} if self.documentary(f, it) else \
                src - {'fixed'} or {'named'}
        if op == 'attr':
            o, nm = t.args[0], t.args[1]
            if o.op == 'inst' and len(o.args) > 1 or o.op == 'sym' and \
                    o.args[0] == 'self':
                c = o.args[1] if o.op == 'inst' else f.cls
                if c is not None and not isinstance(c, str):
                    return self.attribute(c, nm, seen)
            return {'named'}
        if op == 'sub':
            if is_const(t.args[1]) and isinstance(cval(t.args[1]), str):
                if 'environ' in short(t.args[0]) or \
                        'kwargs' in short(t.args[0]) or \
                        'param' in short(t.args[0]):
                    return {'named'}
                return {'document'}
            return rec(t.args[0]) - {'fixed'} or {'named'}
        if op in ('item', 'slice'):
            return rec(t.args[0])
        fn, args = fn_args(t)
        if fn is not None:
            if fn.op == 'ext':
                nm = fn.args[0]
                if nm in SAFE:
                    return {'named'}
                if nm in ('tempfile.gettempdir', 'tempfile.gettempprefix',
                          'tempfile.mktemp'):
                    return {'predictable'}
                if nm.startswith('tempfile.'):
                    return {'named'}
                if nm in ('os.getcwd', 'os.getenv', 'os.environ.get',
                          'builtins.input', 'os.path.expanduser'):
                    return {'named'}
                if nm in ('os.path.join', 'os.path.abspath',
                          'os.path.normpath', 'os.path.realpath',
                          'os.path.basename', 'os.path.dirname',
                          'os.path.splitext', 'builtins.str',
                          'builtins.list', 'builtins.tuple', 'os.fspath',
                          'shlex.split', 'shlex.quote'):
                    return self.mix([rec(a) for a in args])
                return {'named'}
            if fn.op == 'func':
                h = fn.args[0]
                if h.fullname in SAFE:
                    return {'named'}
                out = set()
                for a in args:
                    out |= rec(a)
                return out - {'fixed'} or {'named'}
            if fn.op == 'attr':
                m = fn.args[1]
                if m in ('read', 'readline', 'readlines', 'getvalue',
                         'open_text'):
                    return {'document'}
                if m in ('get', 'pop', 'setdefault') and \
                        'environ' in short(fn.args[0]):
                    return {'named'}
                if m in ('format', 'replace', 'strip', 'lower', 'upper',
                         'rstrip', 'lstrip', 'encode', 'decode', 'join',
                         'split', 'rsplit', 'partition', 'rpartition'):
                    return self.mix([rec(fn.args[0])] +
                                    [rec(a) for a in args])
            return {'named'}
        if op == 'bin':
            return self.mix([rec(a) for a in t.args[1:]
                             if isinstance(a, Term)])
        if op in ('fmt', 'str', 'fstr', 'joined', 'list', 'tuple',
                  'container'):
            return self.mix([rec(a) for a in deep(t)])
        return {'named'}

    @staticmethod
    def mix(parts):
        out = set()
        for p in parts:
            out |= p
        if out - {'fixed'}:
            out -= {'fixed'}
        return out or {'fixed'}

    def documentary(self, f, it):
        """iterating this gives names from the document"""
        fn, args = fn_args(it)
        if fn is not None:
            if fn.op == 'ext' and fn.args[0] in (
                    'builtins.sorted', 'builtins.list', 'builtins.reversed',
                    'builtins.set', 'builtins.enumerate', 'builtins.iter',
                    'builtins.tuple'):
                return bool(args) and self.documentary(f, args[0])
            if fn.op == 'ext' and fn.args[0] in ('os.listdir', 'os.walk',
                                                 'glob.glob'):
                return False
            if fn.op == 'attr' and fn.args[1] in ('split', 'splitlines',
                                                  'items', 'values'):
                return False
            return fn.op == 'func'
        if it.op == 'attr' and it.args[0].op == 'sym' and \
                it.args[0].args[0] == 'args':
            return False
        if it.op == 'sym':
            return str(it.args[0]) in ('stg', 'storage', 'self', 'hwp5file',
                                       'bindata', 'item', 'bindata_stg') or \
                self.iterated_storage(f, it)
        return it.op in ('inst', 'sub', 'attr', 'gencall')

    def iterated_storage(self, f, it):
        """the same object is also indexed by what it yields"""
        g = self.ctx.graphs.get(f)
        if g is None:
            return False
        return any(n.kind == 'getitem' and n.obj is it and
                   n.key.op == 'elem' and n.key.args[0] is it
                   for n in g.nodes)


def deep(t):
    st = list(t.args)
    while st:
        x = st.pop()
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (tuple, list)):
            st.extend(x)


# ---------------------------------------------------------------- processes

def sequence(t):
    """True if the term is a sequence of arguments, False if it is text"""
    if is_const(t):
        return isinstance(cval(t), (tuple, list))
    if t.op in ('list', 'tuple', 'container'):
        return True
    if t.op in ('fmt', 'str', 'fstr', 'joined'):
        return False
    if t.op == 'bin':
        if t.args[0] == '%':
            return False
        rs = [sequence(a) for a in t.args[1:]]
        return False if False in rs else (True if True in rs else None)
    if t.op in ('phi', 'ite'):
        rs = [sequence(a) for a in alternatives(t) if a is not t]
        return False if False in rs else (True if rs and all(rs) else None)
    fn, _a = fn_args(t)
    if fn is not None:
        if fn.op == 'attr' and fn.args[1] in ('join', 'format', 'strip',
                                              'decode', 'encode'):
            return False
        if fn.op == 'ext' and fn.args[0] in (
                'builtins.str', 'os.path.join', 'shlex.quote',
                'subprocess.list2cmdline'):
            return False
        if fn.op == 'ext' and fn.args[0] in ('builtins.list', 'shlex.split',
                                             'builtins.tuple',
                                             'builtins.sorted'):
            return True
    return None


def elements(t):
    """the elements of a sequence term that are known"""
    if t.op == 'bin' and t.args[0] == '+':
        return elements(t.args[1]) + elements(t.args[2])
    if t.op in ('list', 'tuple', 'container'):
        return list(deep(t))
    if t.op in ('phi', 'ite'):
        out = []
        for a in alternatives(t):
            if a is not t:
                out += elements(a)
        return out
    if is_const(t) and isinstance(cval(t), (list, tuple)):
        return [T('const', x) for x in cval(t)] if False else []
    return []


def process_rule(ctx, org):
    R = 'C03.process'
    ctx.rule(R, 'programs are started from argument lists without a shell, '
             'and nothing read from a document becomes an argument', 6)
    for f, g, n, nm in ext_calls(ctx):
        what = '%s %s' % (f.fullname, nm.split('.')[-1])
        if nm in SHELLS or nm.startswith(('os.spawn', 'os.exec')):
            ctx.bad(R, what, '%s hands the command to a shell or replaces '
                    'the process' % nm, ctx.where(n))
            continue
        if nm not in STARTERS:
            continue
        kw = kwargs(n)
        sh = kw.get('shell')
        ctx.check(sh is None or is_const(sh) and not cval(sh), R,
                  what + ' shell', 'the command is run by a shell',
                  ctx.where(n))
        cmd = n.args[0] if n.args else kw.get('args')
        if cmd is None:
            continue
        ctx.check(sequence_of(ctx, org, f, cmd) is not False, R,
                  what + ' list', 'the command %s is one text and not a list '
                  'of arguments' % short(cmd, 60), ctx.where(n))
        bad = [e for e in elements(cmd) if 'document' in org.of(f, e)]
        ctx.check(not bad, R, what + ' arguments', '%s comes from the '
                  'document' % [short(b, 60) for b in bad], ctx.where(n))
        if kw.get('executable') is not None:
            ctx.check('document' not in org.of(f, kw['executable']), R,
                      what + ' program', 'the program is chosen by the '
                      'document', ctx.where(n))


def sequence_of(ctx, org, f, t, seen=frozenset()):
    r = sequence(t)
    if r is not None or t in seen:
        return r
    if t.op == 'sym':
        h = f
        while h is not None and t.args[0] not in h.params:
            h = h.parent
        if h is None:
            return None
        i = h.params.index(t.args[0])
        rs = []
        for c, n in org.callers(h):
            if n is None or isinstance(n, tuple) or h.cls is not None:
                continue
            if i < len(n.args):
                rs.append(sequence_of(ctx, org, c, n.args[i], seen | {t}))
        return False if False in rs else None
    if t.op == 'attr' and f.cls is not None:
        org.attribute(f.cls, t.args[1], frozenset())
        rs = [sequence_of(ctx, org, h, n.value, seen | {t})
              for h, n in (org.stores or {}).get((f.cls, t.args[1]), ())]
        return False if False in rs else None
    return None


# --------------------------------------------------------------------- code

def typed(t):
    """the text was typed by the user"""
    for x in subterms(t):
        fn, _a = fn_args(x)
        if fn is not None and fn.op == 'ext' and fn.args[0] in (
                'builtins.input', 'builtins.raw_input'):
            return True
    return False


def code_rule(ctx):
    R = 'C03.code'
    ctx.rule(R, 'no text is evaluated as code, loaded as objects or imported '
             'by name unless the user typed it or the program fixes it', 1)
    for f, g, n, nm in ext_calls(ctx):
        if nm not in CODE:
            continue
        what = '%s %s' % (f.fullname, nm.split('.')[-1])
        a = n.args[0] if n.args else None
        ok = a is not None and (is_const(a) or typed(a))
        if not ok and nm in ('builtins.__import__',
                             'importlib.import_module'):
            org = Origins(ctx)
            ok = a is not None and 'document' not in org.of(f, a)
        ctx.check(ok, R, what, '%s of %s' % (
            nm, short(a, 60) if a is not None else ''), ctx.where(n))
    ctx.ok(R, 'audit of %d functions' % len(ctx.graphs))


# ------------------------------------------------------------------ network

def network_rule(ctx):
    R = 'C03.network'
    ctx.rule(R, 'nothing uses the network and the parsers are not allowed '
             'to', 3)
    seen = set()
    for f, g, n, nm in ext_calls(ctx):
        if nm.startswith(NETWORK) and nm not in LOCAL_URL:
            ctx.bad(R, '%s %s' % (f.fullname, nm), '%s is used' % nm,
                    ctx.where(n))
        kw = kwargs(n)
        if nm.startswith('lxml.'):
            for k, good in (('no_network', True), ('load_dtd', False),
                            ('dtd_validation', False)):
                v = kw.get(k)
                if v is not None:
                    ctx.check(is_const(v) and bool(cval(v)) == good, R,
                              '%s %s %s' % (f.fullname, nm, k),
                              '%s=%s lets the parser follow references out '
                              'of the document' % (k, short(v)),
                              ctx.where(n))
        if nm.endswith(('etree.parse', 'ElementTree.parse',
                        'minidom.parse')) and n.args:
            a = n.args[0]
            key = (f, nm)
            ctx.check(not any(is_const(x) and isinstance(cval(x), str) and
                              '://' in cval(x) for x in subterms(a)), R,
                      '%s %s source' % (f.fullname, nm),
                      'parses from %s' % short(a, 60), ctx.where(n))
            seen.add(key)
    # the options of the external parsers
    fi = ctx.prog.find_func('hwp5.utils', 'xmllint')
    if fi is None:
        return
    g = ctx.query('from hwp5.utils import xmllint\n'
                  'def q():\n    return xmllint()\n',
                  inline=lambda f, w: f is fi)
    cmds = [a for n in g.nodes if n.kind == 'call' for a in n.args
            if isinstance(a, Term) and a.op in ('list', 'container',
                                                'tuple')]
    full = [c for c in cmds if any(cval(e) == '-' for e in deep(c)
                                   if is_const(e))]
    if full:
        ctx.check(all(any(is_const(e) and cval(e) == '--nonet'
                          for e in deep(c)) for c in full), R,
                  'xmllint filter', 'xmllint may fetch from the network by '
                  'default', ctx.where(g.nodes[0]) if False else
                  'src/hwp5/utils.py')
    i = fi.params.index('nonet') if 'nonet' in fi.params else None
    for f, g in ctx.graphs.items():
        for n in g.nodes:
            if n.kind == 'call' and n.get('target') is fi:
                v = kwargs(n).get('nonet')
                if v is None and i is not None and i < len(n.args):
                    v = n.args[i]
                if v is not None:
                    ctx.check(not is_const(v) or bool(cval(v)), R,
                              '%s xmllint' % f.fullname,
                              'xmllint is allowed to use the network',
                              ctx.where(n))


# -------------------------------------------------------------------- files

def writes(mode):
    """the mode opens for writing: True, False, None"""
    if mode is None:
        return False
    vs = [a for a in alternatives(mode)]
    if all(is_const(a) for a in vs):
        return any(isinstance(cval(a), str) and set(cval(a)) & set('wax+')
                   for a in vs)
    return None


def file_rule(ctx, org):
    R = 'C03.files'
    ctx.rule(R, 'what is created, overwritten or removed lies at a place '
             'named by the user or is a temporary file', 12)
    for f, g, n, nm in ext_calls(ctx):
        kw = kwargs(n)
        paths = []
        if nm in EFFECTS:
            paths = [(i, n.args[i]) for i in EFFECTS[nm] if i < len(n.args)]
        elif nm in OPENERS:
            mode = n.args[1] if len(n.args) > 1 else kw.get('mode')
            if writes(mode) and n.args:
                paths = [(0, n.args[0])]
        elif nm == 'os.open' and n.args:
            paths = [(0, n.args[0])]
        elif nm == 'tempfile.mktemp':
            ctx.bad(R, '%s %s' % (f.fullname, nm), 'a name without a file '
                    'can be taken by someone else', ctx.where(n))
            continue
        for i, p in paths:
            what = '%s %s' % (f.fullname, nm)
            o = org.of(f, p)
            ctx.check('document' not in o, R, what + ' name',
                      'the path %s contains a name from the document that '
                      'was not escaped' % short(p, 70), ctx.where(n))
            ctx.check('predictable' not in o, R, what + ' temporary',
                      'the path %s in the shared temporary directory can be '
                      'foreseen' % short(p, 70), ctx.where(n))
            ctx.check('fixed' not in o, R, what + ' place',
                      'the path %s is fixed by the program' % short(p, 70),
                      ctx.where(n))
    remove_rule(ctx, org)


def remove_rule(ctx, org):
    R = 'C03.removal'
    ctx.rule(R, 'a file that was read as the document is never removed or '
             'overwritten', 1)
    cands = 0
    for f in entry_points(ctx).values():
        g = ctx.graphs.get(f)
        if g is None:
            continue
        cands += 1
        for n in g.nodes:
            if n.kind != 'call':
                continue
            for a in alternatives(n.fn):
                if a.op == 'ext' and a.args[0] in EFFECTS:
                    for i in EFFECTS[a.args[0]]:
                        p = n.args[i] if i < len(n.args) else None
                        ctx.check(p is None or not (
                            p.op == 'attr' and
                            p.args[1] == 'hwp5file'), R,
                            '%s %s' % (f.fullname, a.args[0]),
                            'acts on the document itself', ctx.where(n))
    ctx.ok(R, '%d commands' % cands)


# --------------------------------------------------------------- stylesheets

LOADERS = ('document', 'unparsed-text', 'doc', 'collection',
           'unparsed-text-available')


def sheet_rule(ctx):
    R = 'C03.sheets'
    ctx.rule(R, 'stylesheets load only their own parts and write only the '
             'result', 4)
    for rel, (path, root) in sorted(sheets(ctx).items()):
        if root is None:
            continue
        for e in root.walk():
            nm = e.xsl
            what = '%s:%s' % (rel, nm or e.name.split('|')[-1])
            if nm in ('import', 'include'):
                href = e.attrs.get('href', '')
                ctx.check('://' not in href and not href.startswith('/') and
                          os.path.exists(os.path.join(
                              os.path.dirname(path), href)), R,
                          what + ' ' + href, 'loads %s' % href,
                          '%s:%d' % (rel, e.line))
            if nm == 'result-document' or nm is None and \
                    e.name.rpartition('|')[2] in (
                        'document', 'write', 'output') and \
                    ('exslt' in e.name or 'xalan' in e.name or
                     'saxon' in e.name or 'xt' in e.name.split('|')[0]):
                ctx.bad(R, what, 'writes a document of its own',
                        '%s:%d' % (rel, e.line))
            if nm == 'script' or 'script' in e.name and 'xslt' in e.name:
                ctx.bad(R, what, 'contains code', '%s:%d' % (rel, e.line))
            for k, v in e.attrs.items():
                for fn in LOADERS:
                    if calls_in(v, fn):
                        ctx.bad(R, '%s @%s' % (what, k),
                                'loads another document: %s' % v[:60],
                                '%s:%d' % (rel, e.line))
        ctx.ok(R, rel)


def calls_in(text, fn):
    i = text.find(fn + '(')
    while i >= 0:
        if i == 0 or not (text[i - 1].isalnum() or text[i - 1] in '-_.$'):
            return True
        i = text.find(fn + '(', i + 1)
    return False


def sheets(ctx):
    out = {}
    src = ctx.prog.src
    ov = getattr(ctx.prog, 'overlay', None) or {}
    for d, _ds, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith('.xsl'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)
                text = ov.get(rel)
                try:
                    out[rel] = (p, xsl.parse(
                        p, text.encode('utf-8') if text is not None
                        else None))
                except Exception:
                    out[rel] = (p, None)
    return out


XL = 'hwp5/plat/xmllint.py'
XP = 'hwp5/plat/xsltproc.py'
PL = 'hwp5/plat/__init__.py'
LX = 'hwp5/plat/_lxml.py'
U = 'hwp5/utils.py'
ST = 'hwp5/storage/__init__.py'
HTML = 'hwp5/hwp5html.py'
ODT = 'hwp5/hwp5odt.py'
BT = 'hwp5/bintype.py'
UNPACK = 'hwp5/proc/unpack.py'

witnesses = [
    ('shell', XL, "p = subprocess.Popen(args)",
     "p = subprocess.Popen(' '.join(args), shell=True)"),
    ('one text', XP, "        p = Popen(cmd)\n",
     "        p = Popen('%s -o %s %s %s' % (executable, output, "
     "self.xsl_path, input))\n"),
    ('pager by the shell', U, "        pager_cmd = shlex.split(pager_cmd)\n"
     "        return output_thru_subprocess(pager_cmd)",
     "        return output_thru_subprocess(' '.join([pager_cmd, '-']))"),
    ('os.system', PL, "        subprocess.check_output(args)",
     "        import os\n        os.system(' '.join(args))"),
    ('eval of a value', 'hwp5/msoleprops.py',
     "    def read(self", "    def evaluate(self, f):\n"
     "        return eval(f.read())\n\n    def read(self"),
    ('network for xmllint', U, "format=False, nonet=True",
     "format=False, nonet=False"),
    ('network for xmllint at a call', HTML,
     "xmllint(format=True, nonet=True)", "xmllint(format=True, "
     "nonet=False)"),
    ('network for lxml', LX, "            xsl_doc = etree.parse(xsl_file)",
     "            xsl_doc = etree.parse(xsl_file, etree.XMLParser("
     "no_network=False))"),
    ('fixed temporary', PL, """        fd, name = tempfile.mkstemp()
        try:
            fp""", """        name = '/tmp/hwp5-aes.tmp'
        fd = os.open(name, os.O_RDWR)
        try:
            fp"""),
    ('predictable temporary', LX, """    with io.open(out_path, 'wb') as f:
        return""", """    import tempfile
    out_path = os.path.join(tempfile.gettempdir(), 'hwp5-out.xml')
    with io.open(out_path, 'wb') as f:
        return"""),
    ('mktemp', PL, """        fd, name = tempfile.mkstemp()
        try:
            os.close(fd)""", """        name = tempfile.mktemp()
        try:
            pass"""),
    ('name not escaped', ST, "os.path.join(outbase, item_filename(name))",
     "os.path.join(outbase, name)"),
    ('debug dump', HTML, """        css_path = os.path.join(outdir, """
     """'styles.css')""", """        with open('hwp5-debug.xml', 'wb') as f:
            pass
        css_path = os.path.join(outdir, 'styles.css')"""),
    ('sheet loads', 'hwp5/xsl/hwp5css.xsl',
     '<xsl:import href="hwp5css-common.xsl" />',
     '<xsl:import href="hwp5css-common.xsl" />\n  <xsl:variable name="x" '
     'select="document(\'http://example.org/x.xml\')" />'),
    ('document as argument', PL, "                '-nopad',\n",
     "                '-nopad',\n                '-S', ciphertext."
     "read(),\n"),
    ('bindata by its name', HTML,
     "        from hwp5.storage import unpack\n"
     "        unpack(bindata_stg, bindata_dir)",
     "        for name in bindata_stg:\n"
     "            f = bindata_stg[name].open()\n"
     "            with io.open(os.path.join(bindata_dir, name), 'wb') as g:\n"
     "                g.write(f.read())\n            f.close()"),
]

benign = [
    ('tuple of arguments', XL, "        args = [executable, '--noout', "
     "'--relaxng', self.rng_path, input]",
     "        args = (executable, '--noout', '--relaxng', self.rng_path, "
     "input)"),
    ('helper starts the program', XP, [
        ("        p = Popen(cmd)\n        p.wait()\n",
         "        p = started(cmd)\n        p.wait()\n"),
        ("def xslt_compile(", """def started(cmd):
    return Popen(cmd, shell=False)


def xslt_compile(""")]),
    ('list built by steps', XP,
     "        cmd = self.cmd + ['-o', output, self.xsl_path, input]\n",
     "        cmd = list(self.cmd)\n        cmd.extend(['-o', output])\n"
     "        cmd.append(self.xsl_path)\n        cmd.append(input)\n"),
    ('temporary with a suffix', PL, """        fd, name = tempfile.mkstemp()
        try:
            fp""", """        fd, name = tempfile.mkstemp(suffix='.aes')
        try:
            fp"""),
    ('helper for the path', HTML, [
        ("        css_path = os.path.join(outdir, 'styles.css')\n",
         "        css_path = part_path(outdir, 'styles.css')\n"),
        ("@contextmanager\ndef open_dir(", """def part_path(base, name):
    return os.path.join(base, name)


@contextmanager
def open_dir(""")]),
    ('escape first', ST, [
        ("        outpath = os.path.join(outbase, item_filename(name))\n",
         "        filename = item_filename(name)\n"
         "        outpath = os.path.join(outbase, filename)\n")]),
    ('nonet spelled', U, "    if nonet:\n        cmd.append('--nonet')\n",
     "    cmd += ['--nonet'] if nonet else []\n"),
    ('mode by keyword', HTML, "        with io.open(css_path, 'wb') as f:",
     "        with io.open(css_path, mode='wb') as f:"),
    ('listing twice', ST, "    for name in stg:\n        outpath",
     "    names = list(stg)\n    for name in names:\n        outpath"),
    ('eval of typed text', BT, "                value = eval(value)\n",
     "                typed = value\n                value = eval(typed)\n"),
]
