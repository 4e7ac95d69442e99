# -*- coding: utf-8 -*-
"""S06 unpacking never writes outside the chosen directory."""
import re
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import walk, value
from ..prog import FuncInfo
from ._util import short, fn_args, try_refine

TECHNIQUE = ('taint analysis from the names of the items of a container to '
             'the paths of file-system writes, with an abstract domain of '
             'path-component hazards (separator, parent directory) through '
             'string operations and guards')
LEVEL_NOTE = ('Item names are the elements of an iteration over an object '
              'that is not a program constant. Only separators of the POSIX '
              'file system are demanded to be removed. Symbolic links that '
              'exist in the directory beforehand are outside the property.')
EXPLANATION = '''Every call that creates, writes, renames or removes a file or
directory is enumerated in every function. Its path is decomposed through
joins and concatenations; a part that contains an item name must be unable to
contain a path separator and to be "..". Which of the two a part can still be
is computed over replacements, substitutions by constant patterns, prefixes
and conditional values, in all branches that a hostile name can take; helpers
are inlined. Paths that arrive as parameter are followed to the arguments of
all callers.'''

CREATES = {'io.open': 0, 'builtins.open': 0, 'os.open': 0, 'os.mkdir': 0,
           'os.makedirs': 0, 'os.rename': 1, 'os.replace': 1, 'os.link': 1,
           'os.symlink': 1, 'os.unlink': 0, 'os.remove': 0, 'os.rmdir': 0,
           'os.mkfifo': 0, 'shutil.rmtree': 0, 'shutil.copy': 1,
           'shutil.copyfile': 1, 'shutil.move': 1, 'codecs.open': 0,
           'os.removedirs': 0, 'os.truncate': 0, 'shutil.copytree': 1,
           'zipfile.ZipFile': 0, 'pathlib.Path': 0, 'logging.FileHandler': 0}
KEEP = ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'encode', 'decode',
        'expandtabs', 'title', 'ljust', 'rjust', 'format_map', 'translate')
SKIP = ('hwp5.plat._uno', 'hwp5.storage.fs')


def run(ctx):
    ctx.rule('S06.paths', 'no item name reaches the path of a file-system '
             'write while it can contain a separator or be ".."', 2)
    done = set()
    n = 0
    for f, g0 in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        if f.module.name in SKIP:
            continue
        if not any(sink(x) is not None for x in g0.nodes):
            continue
        g = graph_of(ctx, f)
        for x in g.nodes:
            p = sink(x)
            if p is None:
                continue
            n += 1
            where = ctx.where(x)
            obligation(ctx, f, g, x, p, '%s %s' % (f.fullname, short(x.fn)),
                       where, done, 0)
            ctx.ok('S06.paths', '%s %s(%s)' % (f.fullname, short(x.fn),
                                               short(p)))


def graph_of(ctx, f, but=None):
    cache = ctx.prog.__dict__.setdefault('_s06', {})
    if (f, but) not in cache:
        g = ctx.graph(f, inline=lambda x, w: x is not but and
                      small(ctx, f, x))
        cache[f, but] = try_refine(g) or g
    return cache[f, but]


def small(ctx, f, x):
    """helpers that are looked into: they write nothing themselves"""
    if x.is_generator or x.module is not f.module and \
            x.module.name not in ('hwp5.storage', 'hwp5.utils'):
        return False
    g = ctx.graphs.get(x)
    return g is not None and not any(sink(n) is not None for n in g.nodes) \
        and len(g.nodes) < 120


def sink(n):
    """the path of a write, or None"""
    if n.kind != 'call':
        return None
    if n.fn.op == 'attr' and n.fn.args[1] in (
            'mkdir', 'write_bytes', 'write_text', 'touch', 'unlink') and \
            'pathlib' in short(n.fn.args[0], 400):
        return n.fn.args[0]
    if n.fn.op != 'ext' or n.fn.args[0] not in CREATES:
        return None
    i = CREATES[n.fn.args[0]]
    name = n.fn.args[0]
    kw = dict(n.get('kw') or ())
    p = n.args[i] if len(n.args) > i else kw.get('file', kw.get(
        'path', kw.get('dst', kw.get('name', kw.get('filename')))))
    if p is None:
        return None
    if name in ('io.open', 'builtins.open', 'codecs.open'):
        m = n.args[1] if len(n.args) > 1 else kw.get('mode')
        if m is None or is_const(m) and not set(str(cval(m))) & set('wax+'):
            return None
    return p


def is_name(t, g):
    """t is an element of an iteration over something that is not constant"""
    if t.op == 'elem':
        return not is_const(t.args[0]) and not listed(t.args[0])
    return False


def listed(t):
    """an iteration over names of existing files or over literals"""
    if t.op in ('tuple', 'list', 'dict', 'set'):
        return True
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'ext':
        if fn.args[0] in ('builtins.sorted', 'builtins.list', 'builtins.set',
                          'builtins.tuple', 'builtins.iter',
                          'builtins.reversed', 'builtins.enumerate'):
            return bool(a) and listed(a[0])
        return True
    return t.op in ('gval',) or any(
        x.op == 'ext' and x.args[0].startswith(('sys.argv', 'os.environ'))
        for x in subterms(t))


def has_name(t, g):
    return any(is_name(x, g) for x in subterms(t))


def obligation(ctx, f, g, n, p, what, where, done, depth):
    key = (f, p, what, n.id)
    if key in done or depth > 6:
        return
    done.add(key)
    for part in parts_of(p):
        if has_name(part, g):
            for hz, text in (('sep', 'contain a path separator'),
                             ('dots', 'be ".."')):
                names = [x for x in subterms(part) if is_name(x, g)]
                ev = hostile(names, hz)
                seen = walk(g, [g.entry], ev, skip=('genexit',))
                if n.id in seen and hz in hazards(part, names, ev):
                    ctx.bad('S06.paths', '%s %s' % (what, hz),
                            'the item name in the path %s can %s' % (
                                short(p), text), where)
                    break
            else:
                ctx.ok('S06.paths', '%s: %s' % (what, short(part)))
            continue
        for q in params_in(part, f):
            for c in ctx.cg.pred.get(f, ()):
                gc = graph_of(ctx, c, f)
                for m in gc.nodes:
                    if m.kind == 'call' and m.get('target') is f:
                        a = argument(f, m, q)
                        if a is not None:
                            obligation(ctx, c, gc, m, a, what, ctx.where(m),
                                       done, depth + 1)


def params_in(t, f):
    ps = set(f.params)
    return [x.args[0] for x in subterms(t)
            if x.op == 'sym' and x.args[0] in ps]


def argument(f, m, name):
    ps = list(f.params)
    i = ps.index(name)
    kw = dict(m.get('kw') or ())
    if name in kw:
        return kw[name]
    args = list(m.args)
    if m.fn.op == 'bound':
        args = [m.fn.args[0]] + args
    elif f.cls is not None and ps and ps[0] == 'self' and \
            len(args) < len(ps) and m.fn.op == 'attr':
        args = [m.fn.args[0]] + args
    return args[i] if i < len(args) else None


def parts_of(t):
    """path parts"""
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'ext' and fn.args[0] in (
            'os.path.join', 'posixpath.join'):
        return [y for x in a for y in parts_of(x)]
    if fn is not None and fn.op == 'ext' and fn.args[0] in (
            'os.path.abspath', 'os.path.normpath', 'os.path.realpath',
            'os.path.expanduser', 'builtins.str', 'pathlib.Path',
            'pathlib.PurePath'):
        return [y for x in a for y in parts_of(x)]
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'joinpath':
        return parts_of(fn.args[0]) + [y for x in a for y in parts_of(x)]
    if t.op in ('ite', 'phi'):
        return [t]
    fl = flat(t)
    if fl is not None and len(fl) > 1:
        # cut at the separators of the constants
        groups = [[]]
        for x in fl:
            if is_const(x) and isinstance(cval(x), str) and '/' in cval(x):
                s = cval(x)
                from ..terms import const
                if s.split('/')[0]:
                    groups[-1].append(const(s.split('/')[0]))
                groups.append([])
                if s.split('/')[-1]:
                    groups[-1].append(const(s.split('/')[-1]))
            elif seplike(x):
                groups.append([])
            else:
                groups[-1].append(x)
        out = []
        for gr in groups:
            if len(gr) == 1:
                out.append(gr[0])
            elif gr:
                out.append(T('concat', *gr))
        return out
    return [t]


def seplike(x):
    return x.op == 'ext' and x.args[0] in ('os.sep', 'os.path.sep') or \
        x.op == 'attr' and x.args[1] == 'sep'


def flat(t):
    if t.op == 'bin' and t.args[0] == '+':
        a, b = flat(t.args[1]), flat(t.args[2])
        return (a or [t.args[1]]) + (b or [t.args[2]])
    if t.op in ('fstr', 'concat'):
        return list(t.args)
    if t.op == 'bin' and t.args[0] == '%' and is_const(t.args[1]):
        vs = list(t.args[2].args) if t.args[2].op == 'tuple' else [t.args[2]]
        s = cval(t.args[1])
        if isinstance(s, str):
            from ..terms import const
            ps = re.split(r'%[-0-9.]*[a-zA-Z]', s)
            if len(ps) == len(vs) + 1:
                out = [const(ps[0])]
                for v, p in zip(vs, ps[1:]):
                    out += [v, const(p)]
                return [x for x in out if not (is_const(x) and not cval(x))]
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'format' and \
            is_const(fn.args[0]) and isinstance(cval(fn.args[0]), str):
        from ..terms import const
        ps = re.split(r'\{[^}]*\}', cval(fn.args[0]))
        if len(ps) == len(a) + 1:
            out = [const(ps[0])]
            for v, p in zip(a, ps[1:]):
                out += [v, const(p)]
            return [x for x in out if not (is_const(x) and not cval(x))]
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'join' and \
            is_const(fn.args[0]) and len(a) == 1 and \
            a[0].op in ('tuple', 'list'):
        out = []
        for i, x in enumerate(a[0].args):
            if i and cval(fn.args[0]):
                out.append(fn.args[0])
            out.append(x)
        return out
    return None


BOTH = frozenset(('sep', 'dots'))


def hazards(t, names, ev):
    if t in names:
        return set(BOTH)
    if is_const(t):
        v = cval(t)
        v = v.decode('latin1') if isinstance(v, bytes) else str(v)
        return ({'sep'} if '/' in v else set()) | (
            {'dots'} if v == '..' else set())
    if not any(x in names for x in subterms(t)):
        return set()
    if t.op == 'ite':
        v = value(t.args[0], ev)
        out = set()
        if v is not False:
            out |= hazards(t.args[1], names, ev)
        if v is not True:
            out |= hazards(t.args[2], names, ev)
        return out
    if t.op == 'phi':
        out = set()
        for x in alternatives(t):
            out |= hazards(x, names, ev)
        return out
    fl = flat(t)
    if fl is not None:
        out = set()
        for x in fl:
            out |= hazards(x, names, ev)
        if any(is_const(x) and str(cval(x)).strip('.') for x in fl):
            out.discard('dots')
        return out
    if t.op == 'sub':
        b, k = t.args
        fn, a = fn_args(b)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'split', 'rsplit', 'partition', 'rpartition') and a and \
                is_const(a[0]) and is_const(k):
            out = hazards(fn.args[0], names, ev)
            if cval(a[0]) in ('/', b'/') and (
                    fn.args[1] == 'split' and len(a) == 1 or
                    fn.args[1] == 'rpartition' and cval(k) in (2, -1) or
                    fn.args[1] == 'partition' and cval(k) == 0 or
                    fn.args[1] == 'rsplit' and (len(a) == 1 or
                                                cval(k) in (-1, 1))):
                out.discard('sep')
            return out
        if fn is not None and fn.op == 'ext' and fn.args[0] in (
                'os.path.split',) and is_const(k):
            out = hazards(a[0], names, ev)
            if cval(k) in (1, -1):
                out.discard('sep')
            return out
        return hazards(b, names, ev)
    if t.op == 'item':
        return hazards(T('sub', *t.args), names, ev) \
            if isinstance(t.args[1], Term) else hazards(t.args[0], names, ev)
    fn, a = fn_args(t)
    if fn is None:
        return set()
    if fn.op == 'ext':
        nm = fn.args[0]
        if nm in ('os.path.basename', 'ntpath.basename',
                  'posixpath.basename'):
            return hazards(a[0], names, ev) - {'sep'}
        if nm in ('re.sub', 're.subn') and len(a) >= 3:
            return substituted(cval(a[0]) if is_const(a[0]) else None, a[1],
                               hazards(a[2], names, ev))
        if nm.startswith('urllib') and nm.endswith(('quote', 'quote_plus')):
            out = hazards(a[0], names, ev)
            safe = a[1] if len(a) > 1 else None
            if safe is not None and is_const(safe) and \
                    '/' not in str(cval(safe)) or nm.endswith('_plus'):
                out.discard('sep')
            return out
        if nm in ('builtins.str', 'os.path.normpath', 'os.path.normcase',
                  'os.fsdecode', 'os.fsencode', 'os.path.join',
                  'unicodedata.normalize', 'builtins.unicode'):
            out = set()
            for x in a:
                out |= hazards(x, names, ev)
            return out
        return set()
    if fn.op == 'attr':
        o, m = fn.args
        if m == 'replace' and len(a) >= 2 and all(map(is_const, a[:2])):
            out = hazards(o, names, ev)
            old, new = cval(a[0]), cval(a[1])
            if old in ('/', b'/') and '/' not in str(new):
                out.discard('sep')
            if old in ('.', '..', b'.', b'..') and '.' not in str(new):
                out.discard('dots')
            return out
        if m == 'replace' and len(a) >= 2 and seplike(a[0]) and \
                is_const(a[1]):
            return hazards(o, names, ev) - {'sep'}
        if m == 'sub' and len(a) >= 2:
            p = pattern(o)
            return substituted(p, a[0], hazards(a[1], names, ev))
        if m in KEEP:
            return hazards(o, names, ev)
        if o in names or any(x in names for x in a):
            return set()
    return set()


def pattern(o):
    """the constant pattern of a compiled regular expression"""
    for x in subterms(o):
        fn, a = fn_args(x)
        if fn is not None and fn.op == 'ext' and \
                fn.args[0] == 're.compile' and a and is_const(a[0]):
            return cval(a[0])
    return None


def substituted(p, repl, hz):
    if p is None:
        return set()
    try:
        rx = re.compile(p)
    except (re.error, TypeError):
        return set()
    b = isinstance(p, bytes)
    new = cval(repl) if is_const(repl) else None
    # a class of single characters, wherever they stand
    everywhere = not re.search(r'[$^]|\(\?', p.decode('latin1') if b else
                               re.sub(r'\[\^', '[', p))
    out = set(hz)
    if everywhere and rx.fullmatch(b'/' if b else '/') and (
            new is None or '/' not in str(new)):
        out.discard('sep')
    if everywhere and (rx.fullmatch(b'.' if b else '.') or rx.fullmatch(
            b'..' if b else '..')) and (new is None or
                                       '.' not in str(new)):
        out.discard('dots')
    return out


def hostile(names, hz):
    """decide conditions on the name for names of the class"""
    def ev(c):
        if c.op == 'cmp':
            op, a, b = c.args
            if op in ('in', 'not in'):
                r = None
                if a in names or derived(a):
                    vs = elems(b)
                    if vs is not None and hz == 'dots':
                        r = '..' in vs
                    elif vs is not None and not any('/' in str(v)
                                                    for v in vs):
                        r = False
                elif is_const(a) and (b in names or derived(b)):
                    if hz == 'sep' and cval(a) in ('/', b'/'):
                        r = True
                    elif hz == 'dots' and isinstance(cval(a), str):
                        r = cval(a) in '..'
                elif seplike(a) and (b in names or derived(b)):
                    r = hz == 'sep'
                if r is not None:
                    return r if op == 'in' else not r
            if op in ('==', '!='):
                r = None
                for x, y in ((a, b), (b, a)):
                    if (x in names or derived(x)) and is_const(y):
                        v = cval(y)
                        if hz == 'dots' and isinstance(v, str):
                            r = v == '..'
                        elif hz == 'sep' and isinstance(v, str) and \
                                '/' not in v:
                            r = False
                    fn, ar = fn_args(x)
                    if fn is not None and fn.op == 'ext' and \
                            fn.args[0].endswith('path.basename') and ar and \
                            ar[0] is y and y in names:
                        r = hz != 'sep'
                if r is not None:
                    return r if op == '==' else not r
        fn, a = fn_args(c)
        if fn is not None and fn.op == 'attr' and is_const_arg(a) and \
                (fn.args[0] in names or derived(fn.args[0])):
            v = cval(a[0])
            if hz == 'dots' and fn.args[1] in ('startswith', 'endswith') \
                    and isinstance(v, str):
                return getattr('..', fn.args[1])(v)
        if containment(c):
            return True if outside(c) else False
        return None

    def derived(t):
        """escaped forms of the name which keep the hazard"""
        return hz in hazards(t, names, lambda c: None) if any(
            x in names for x in subterms(t)) and len(short(t, 2000)) < 1500 \
            else False
    return ev


def is_const_arg(a):
    return bool(a) and is_const(a[0])


def elems(b):
    if b.op in ('tuple', 'list', 'set') and all(map(is_const, b.args)):
        return [cval(x) for x in b.args]
    if is_const(b) and isinstance(cval(b), (tuple, frozenset)):
        return list(cval(b))
    return None


def containment(c):
    """the condition compares resolved paths"""
    return any(x.op == 'ext' and x.args[0] in (
        'os.path.realpath', 'os.path.abspath', 'os.path.commonpath',
        'os.path.relpath') for x in subterms(c)) and any(
        x.op in ('res', 'pure') and fn_args(x)[0].op == 'attr' and
        fn_args(x)[0].args[1] == 'startswith' or x.op == 'cmp' or
        x.op == 'ext' and x.args[0] == 'os.path.commonpath'
        for x in subterms(c))


def outside(c):
    """answer of the containment test for a path outside: for "not
    startswith" or "!=" it is yes"""
    fn, a = fn_args(c)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'startswith':
        # relpath(...).startswith('..')
        return bool(a) and is_const(a[0]) and '..' in str(cval(a[0]))
    if c.op == 'cmp':
        return c.args[0] == '!='
    return False


F = 'hwp5/storage/__init__.py'
JOIN = 'outpath = os.path.join(outbase, item_filename(name))'
BODY = '''    name = re.sub('[\\\\x00-\\\\x1f/\\\\\\\\:]',
                  lambda m: '_%02x' % ord(m.group()),
                  name)
    if name in ('', '.', '..'):
        name = '_' + name
    return name
'''
witnesses = [
    ('plain', F, JOIN, 'outpath = os.path.join(outbase, name)'),
    ('string', F, JOIN, "outpath = '%s/%s' % (outbase, name)"),
    ('only dots', F, BODY, '''    if name in ('', '.', '..'):
        name = '_' + name
    return name
'''),
    ('only separators', F, """    if name in ('', '.', '..'):
        name = '_' + name
    return name""", '    return name'),
    ('dots at the start', F, "if name in ('', '.', '..'):",
     "if name == '.':"),
    ('prefix lost', F, "        name = '_' + name\n    return name",
     "        logger_name = '_' + name\n    return name"),
    ('class', F, '[\\\\x00-\\\\x1f/\\\\\\\\:]', '[\\\\x00-\\\\x1f\\\\\\\\:]'),
    ('only streams', F, """            if not os.path.exists(outpath):
                os.mkdir(outpath)
            unpack(item, outpath)
""", """            outpath = os.path.join(outbase, name)
            if not os.path.exists(outpath):
                os.mkdir(outpath)
            unpack(item, outpath)
"""),
    ('replace once', F, BODY, "    return name.replace('../', '')\n"),
    ('own loop', 'hwp5/hwp5html.py', '        unpack(bindata_stg, bindata_dir)\n',
     """        for name in bindata_stg:
            with io.open(os.path.join(bindata_dir, name), 'wb') as f:
                f.write(bindata_stg[name].open().read())
"""),
    ('caller', 'hwp5/proc/unpack.py', '        storage.unpack(hwp5file, outdir)\n',
     """        for name in hwp5file:
            target = os.path.join(outdir, name)
            if storage.is_storage(hwp5file[name]):
                make(target)
                storage.unpack(hwp5file[name], target)


def make(path):
    if not os.path.exists(path):
        os.mkdir(path)
"""),
    ('startswith', F, BODY, """    if name.startswith('/'):
        name = name[1:]
    return name
"""),
]
benign = [
    ('basename', F, BODY, """    name = os.path.basename(name)
    if name in ('', '.', '..'):
        return '_' + name
    return name
"""),
    ('refuse', F, BODY, """    if '/' in name or name == '..':
        raise ValueError(name)
    return name
"""),
    ('skip', F, """        outpath = os.path.join(outbase, item_filename(name))
        item = stg[name]
""", """        if '/' in name or name in ('.', '..'):
            continue
        outpath = os.path.join(outbase, name)
        item = stg[name]
"""),
    ('prefix', F, BODY, """    return '_' + name.replace('/', '_2f')
"""),
    ('compiled', F, [(BODY, """    name = UNSAFE.sub('_', name)
    return name if name.strip('.') else '_' + name
"""), ('def item_filename(name):', """UNSAFE = re.compile('[/\\\\x00]|[.][.]')


def item_filename(name):""")]),
    ('inlined', F, JOIN, """filename = name.replace('/', '_')
        if filename == '..':
            filename = '_parent'
        outpath = os.path.join(outbase, filename)"""),
]
