# -*- coding: utf-8 -*-
"""X06 exported packages and directories list exactly what they contain."""
import os
import re

from .. import xsl
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..iters import iterations, natural, nodes_on, feasible
from ._util import short, fn_args, lookup, part
from .X05 import Sheet, rel, close

TECHNIQUE = ('value-flow analysis of the export of a document into an ODF '
             'package, with all calls inlined: every entry written to the '
             'archive is matched with the entry of the manifest for it on '
             'all paths; the names of the stored images are compared with '
             'the references that the stylesheets write')
LEVEL_NOTE = ('Failing calls (exceptions) end an export and are not followed. '
              'What the stylesheets produce beyond the root element and the '
              'references to images is not interpreted.')
EXPLANATION = '''One flow graph of the whole export: the writes to the archive,
the records kept for the manifest and the elements of the manifest are nodes of
it, and their names are terms. For every written part each path has to record
its name and its media type in the structure that the loop of the manifest goes
through, and nothing else; the manifest is complete before it is written, the
archive is closed after it; the type of the package is its first entry, not
compressed.'''

OD = 'hwp5.hwp5odt'
NORMAL = ('exc', 'genexit')
ODT = 'application/vnd.oasis.opendocument.text'
ROOTS = {'styles.xml': 'document-styles', 'content.xml': 'document-content'}


def run(ctx):
    ctx.rule('X06.manifest', 'every part of a package is in its manifest', 2)
    ctx.rule('X06.entries', 'the manifest has an entry for every record', 1)
    ctx.rule('X06.written', 'the manifest is written and the package closed',
             1)
    ctx.rule('X06.first', 'the type comes first and is not compressed', 1)
    ctx.rule('X06.parts', 'the parts of a package are what they are called',
             2)
    ctx.rule('X06.images', 'images are stored where they are referred to', 1)
    package(ctx)
    html(ctx)


# graphs ---------------------------------------------------------------------
def avoiding(g, starts, targets, via):
    """a target reachable from starts without passing via"""
    seen, st = set(), list(starts)
    while st:
        x = st.pop()
        if x in seen or x in via:
            continue
        seen.add(x)
        if x in targets:
            return x
        st.extend(y for y, l in g.nodes[x].succ if l not in NORMAL)
    return None


def after(g, x):
    return [y for y, l in g.nodes[x].succ if l not in NORMAL]


def method(n):
    """(object, name) of a method call"""
    fn = n.get('fn') if n.kind == 'call' else None
    if fn is not None and fn.op == 'attr':
        return fn.args[0], fn.args[1]
    return None, None


def mentions(t, f):
    return any(f(s) for s in subterms(t))


def is_archive(t):
    return mentions(t, lambda s: s.op == 'ext' and
                    s.args[0].endswith('zipfile.ZipFile'))


def strip(t):
    """without conversions to text"""
    while True:
        if t.op == 'ite':
            alts = {strip(x) for x in t.args[1:]}
            if len(alts) == 1:
                return alts.pop()
            return t
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'decode', 'encode'):
            t = fn.args[0]
            continue
        if fn is not None and fn.op in ('ext', 'class', 'builtin') and \
                len(args) == 1 and fn.args[0] in ('str', 'unicode'):
            t = args[0]
            continue
        return t


def archive_name(g, t):
    """(name of the entry, ZipInfo call)"""
    t = strip(t)
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'ext' and \
            fn.args[0].split('.')[-1] == 'ZipInfo' and args:
        return strip(args[0]), t
    return t, None


class Entry:
    def __init__(self, g, n, name, data, info):
        self.g, self.n, self.name, self.data, self.info = \
            g, n, name, data, info

    @property
    def const(self):
        return cval(self.name) if is_const(self.name) else None

    @property
    def text(self):
        return self.const if self.const is not None else short(self.name, 60)


def package(ctx):
    ctx.need_class(OD, 'ODTTransform')
    closed(ctx, ctx.need_class(OD, 'ODTPackage'))
    g = ctx.query('from hwp5.hwp5odt import ODTTransform, ODTPackage\n'
                  'def q(hwp5file, compile, rng, dest):\n'
                  '    t = ODTTransform(compile, rng)\n'
                  '    pkg = ODTPackage(dest)\n'
                  '    t.transform_hwp5_to_package(hwp5file, pkg)\n'
                  '    pkg.close()\n')
    entries, closes = [], []
    for n in g.nodes:
        obj, m = method(n)
        if obj is None or not is_archive(obj):
            continue
        if m == 'writestr' and len(n.args) >= 2:
            name, info = archive_name(g, n.args[0])
            entries.append(Entry(g, n, name, n.args[1], info))
        elif m == 'write' and n.args:
            kw = dict(n.kw or ())
            arc = n.args[1] if len(n.args) > 1 else kw.get('arcname')
            if arc is not None:
                entries.append(Entry(g, n, strip(arc), n.args[0], None))
        elif m == 'close':
            closes.append(n.id)
    if not entries:
        ctx.broken('no writes to the archive in transform_hwp5_to_package')
    exits = {n.id for n in g.nodes if n.kind == 'exit-return'}
    man = [e for e in entries if e.const == 'META-INF/manifest.xml']
    mime = [e for e in entries if e.const == 'mimetype']
    parts = [e for e in entries if not (e.const or '').startswith('META-INF/')
             and e.const != 'mimetype']
    first(ctx, g, mime, entries, exits)
    m = manifest_loop(g)
    written(ctx, g, man, m, parts, closes, exits, entries)
    records(ctx, g, m, parts, exits)
    contents(ctx, g, parts, exits)
    images(ctx, g, parts, exits)


def closed(ctx, pkg):
    """packages that are made are closed"""
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        for n in g.nodes:
            if n.kind != 'new' or n.cls is not pkg or n.get('result') is None:
                continue
            v = n.result
            ends = {x.id for x in g.nodes
                    if x.kind == 'exit-with' and x.get('cm') is not None and
                    closes(x.cm, v) or
                    method(x)[1] == 'close' and method(x)[0] is v or
                    x.kind == 'call' and x.get('target') is not None and
                    x.target.name == 'close' and v in (x.args or ())[:1] or
                    x.kind in ('return', 'yield') and x.get('value') is v and
                    x.kind == 'return'}
            exits = {x.id for x in g.nodes if x.kind == 'exit-return'}
            ctx.check(avoiding(g, after(g, n.id), exits, ends) is None,
                      'X06.written', f.fullname, 'the package that is made '
                      'is not closed on every path', ctx.where(n))


def closes(cm, v):
    return cm is v or any(
        fn_args(s)[0] is not None and fn_args(s)[0].op == 'ext' and
        fn_args(s)[0].args[0].endswith('closing') and v in fn_args(s)[1]
        for s in subterms(cm))


# the first entry ------------------------------------------------------------
def first(ctx, g, mime, entries, exits):
    if not mime:
        return ctx.bad('X06.first', 'mimetype', 'the package gets no '
                       'mimetype entry', ctx.where(entries[0].n))
    ids = {e.n.id for e in mime}
    w = ctx.where(mime[0].n)
    others = {e.n.id: e for e in entries if e not in mime}
    hit = avoiding(g, [g.entry], set(others), ids)
    if hit is not None:
        e = others[hit]
        return ctx.bad('X06.first', 'mimetype', 'the entry %s is written '
                       'before the mimetype' % e.text, ctx.where(e.n))
    if avoiding(g, [g.entry], exits, ids) is not None:
        return ctx.bad('X06.first', 'mimetype', 'a package may be finished '
                       'without mimetype', w)
    for e in mime:
        if avoiding(g, after(g, e.n.id), ids, ()) is not None:
            return ctx.bad('X06.first', 'mimetype', 'the mimetype may be '
                           'written twice', w)
        if not stored(g, e):
            return ctx.bad('X06.first', 'mimetype', 'the mimetype is '
                           'compressed', w)
        v = cval(strip(e.data))
        if isinstance(v, bytes):
            v = v.decode('latin1')
        if v is not None and v != ODT:
            return ctx.bad('X06.first', 'mimetype', 'the type of the package '
                           'is %r' % v, w)
    ctx.ok('X06.first', 'mimetype')


def is_stored(t):
    if is_const(t):
        return cval(t) in (0, None)
    return t.op == 'ext' and t.args[0].endswith('ZIP_STORED')


def stored(g, e):
    kw = dict(e.n.kw or ())
    c = kw.get('compress_type') or (
        e.n.args[2] if len(e.n.args) > 2 else None)
    if c is not None:
        return is_stored(c)
    if e.info is not None:
        for n in g.nodes:
            if n.kind == 'setattr' and n.attr == 'compress_type' and \
                    n.obj is e.info:
                return is_stored(n.value)
        return True
    # as the archive was made
    for s in subterms(method(e.n)[0]):
        fn, args = fn_args(s)
        if fn is not None and fn.op == 'ext' and \
                fn.args[0].endswith('zipfile.ZipFile'):
            kw = dict(s.args[3]) if s.op == 'res' and len(s.args) > 3 and \
                isinstance(s.args[3], tuple) else {}
            c = kw.get('compression') or (args[2] if len(args) > 2 else None)
            if c is not None and not is_stored(c):
                return False
    return True


# the manifest ---------------------------------------------------------------
class Manifest:
    pass


def attrs_of(t):
    """{local name: value} of the attributes of an element"""
    out = {}
    t = strip(t)
    if t.op != 'dict':
        return None
    for kv in t.args:
        if not (isinstance(kv, tuple) and len(kv) == 2):
            return None
        k, v = kv
        if k.op == 'tuple' and k.args:
            k = k.args[-1]
        if is_const(k) and isinstance(cval(k), str):
            out[cval(k).split(':')[-1]] = v
    return out


def element(n):
    """(local name, attributes) of the start of an element"""
    obj, m = method(n)
    if m == 'startElementNS' and len(n.args) >= 3:
        name = n.args[0]
        name = name.args[-1] if name.op == 'tuple' and name.args else name
        return cval(name), n.args[2]
    if m == 'startElement' and len(n.args) >= 2:
        v = cval(n.args[0])
        return (v.split(':')[-1] if isinstance(v, str) else v), n.args[1]
    return None, None


def manifest_loop(g):
    """the elements of the manifest, and the loop over its records"""
    m = Manifest()
    m.starts = [(n,) + element(n) for n in g.nodes
                if n.kind == 'call' and element(n)[0] is not None]
    m.files = [(n, a) for n, name, a in m.starts if name == 'file-entry']
    m.loops = []
    heads = {}
    for n in g.nodes:
        if n.kind == 'loop':
            body = natural(g, n.id)
            for f, a in m.files:
                if f.id in body:
                    k = f.id
                    if k not in heads or len(body) < len(natural(
                            g, heads[k])):
                        heads[k] = n.id
    m.of = heads
    m.buffers = {method(n)[0] for n, _, _ in m.starts}
    return m


def field(t, coll):
    """name of the field of an element of the collection, () for itself"""
    t = strip(t)
    e = lambda x: x.op == 'elem' and x.args[0] is coll
    for _ in range(6):
        if e(t):
            return ()
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'pop', 'get') and args and is_const(args[0]):
            if is_record(fn.args[0], e):
                return cval(args[0])
            return None
        if t.op in ('sub', 'item') and len(t.args) == 2:
            k = t.args[1]
            if is_record(t.args[0], e):
                return cval(k) if isinstance(k, Term) else k
            return None
        if t.op == 'attr' and is_record(t.args[0], e):
            return t.args[1]
        return None
    return None


def is_record(t, e):
    if e(t):
        return True
    fn, args = fn_args(t)
    if fn is not None and len(args) == 1 and fn.op in (
            'ext', 'builtin', 'class') and fn.args[0] in ('dict', 'tuple',
                                                          'list'):
        return e(args[0])
    return t.op == 'dict' and len(t.args) == 1 and e(t.args[0][1])


def project(rec, key):
    """value of a field of a record that is stored"""
    if key == ():
        return rec
    if rec.op == 'dict':
        for k, v in rec.args:
            if cval(k) == key:
                return v
        return None
    if rec.op in ('tuple', 'list') and isinstance(key, int):
        return rec.args[key] if key < len(rec.args) else None
    if rec.op == 'inst':
        return None
    return None


def coll_of(g, h):
    it = g.nodes[h].get('iter')
    while it is not None:
        fn, args = fn_args(it)
        if fn is not None and args and fn.op in ('ext', 'builtin', 'func') \
                and fn.args[0] in ('sorted', 'list', 'tuple', 'iter'):
            it = args[0]
            continue
        return it
    return None


def written(ctx, g, man, m, parts, closes, exits, entries):
    if not man:
        return ctx.bad('X06.written', 'manifest', 'the package gets no '
                       'META-INF/manifest.xml', ctx.where(entries[0].n))
    ids = {e.n.id for e in man}
    w = ctx.where(man[0].n)
    if avoiding(g, [g.entry], exits, ids) is not None:
        return ctx.bad('X06.written', 'manifest', 'a package may be finished '
                       'without manifest', w)
    for e in man:
        if avoiding(g, after(g, e.n.id), ids, ()) is not None:
            return ctx.bad('X06.written', 'manifest', 'the manifest may be '
                           'written twice', w)
        late = avoiding(g, after(g, e.n.id), {p.n.id for p in parts}, ())
        if late is not None:
            return ctx.bad('X06.written', 'manifest', 'parts may be added '
                           'after the manifest is written',
                           ctx.where(g.nodes[late]))
        if avoiding(g, after(g, e.n.id), exits, set(closes)) is not None:
            return ctx.bad('X06.written', 'close', 'the archive is not '
                           'closed after the manifest is written', w)
        late = avoiding(g, [y for c in closes for y in after(g, c)],
                        {x.n.id for x in entries}, ())
        if late is not None:
            return ctx.bad('X06.written', 'close', 'the archive may be closed '
                           'before %s is written' % short(
                               g.nodes[late].args[0]),
                           ctx.where(g.nodes[late]))
        if m.files:
            bufs = {s for b in m.buffers for s in subterms(b)
                    if s.op == 'res'} - m.buffers
            if bufs and not any(s in bufs for s in subterms(e.data)):
                return ctx.bad('X06.written', 'manifest', 'the entry '
                               'META-INF/manifest.xml is not what '
                               'manifest_xml() writes', w)
            for f, a in m.files:
                h = m.of.get(f.id, f.id)
                if avoiding(g, [g.entry], {e.n.id}, {h}) is not None or \
                        reach_from(g, e.n.id, h):
                    return ctx.bad('X06.written', 'manifest', 'the manifest '
                                   'is stored before its entries are made',
                                   w)
            # the buffer has to be read from its start
            fn, args = fn_args(strip(e.data))
            if fn is not None and fn.op == 'attr' and fn.args[1] == 'read':
                b = fn.args[0]
                rd = [n.id for n in g.nodes
                      if n.kind == 'call' and n.get('result') is e.data]
                seeks = {n.id for n in g.nodes if method(n) == (b, 'seek')
                         and n.args and cval(n.args[0]) == 0}
                lasts = [f.id for f, a in m.files]
                if rd and avoiding(g, [y for x in lasts for y in
                                       after(g, x)], set(rd), seeks):
                    return ctx.bad('X06.written', 'manifest', 'the manifest '
                                   'is read from the end of its buffer', w)
    ctx.ok('X06.written', 'manifest')


def reach_from(g, a, b):
    return avoiding(g, after(g, a), {b}, ()) is not None


def records(ctx, g, m, parts, exits):
    inner = [(f, a, m.of[f.id]) for f, a in m.files if f.id in m.of]
    outer = [(f, a) for f, a in m.files if f.id not in m.of]
    if not inner:
        if m.starts and not m.files:
            for p in parts[:1]:
                ctx.bad('X06.entries', 'file-entry', 'the manifest has no '
                        'entries for the parts', ctx.where(m.starts[0][0]))
        elif m.files:
            ctx.bad('X06.entries', 'file-entry', 'the manifest has no entries '
                    'for the parts', ctx.where(m.files[0][0]))
        return
    # the package itself
    root = [attrs_of(a) for f, a in outer]
    if not outer:
        ctx.bad('X06.entries', '/', 'the manifest has no entry for the '
                'package itself', ctx.where(inner[0][0]))
    elif all(r is not None for r in root):
        r = [x for x in root if 'full-path' in x and
             cval(x['full-path']) == '/']
        if not r:
            ctx.bad('X06.entries', '/', 'the manifest has no entry for the '
                    'package itself', ctx.where(outer[0][0]))
        elif cval(r[0].get('media-type', T('top'))) != ODT:
            ctx.bad('X06.entries', '/', 'the type of the package in the '
                    'manifest is %s' % short(r[0].get('media-type',
                                                      T('top'))),
                    ctx.where(outer[0][0]))
        else:
            ctx.ok('X06.entries', '/')
    for f, a, h in inner[:1]:
        coll = coll_of(g, h)
        d = attrs_of(a)
        if d is None or coll is None:
            continue
        w = ctx.where(f)
        if 'full-path' not in d or 'media-type' not in d:
            ctx.bad('X06.entries', 'file-entry', 'an entry of the manifest '
                    'lacks %s' % ' and '.join(
                        x for x in ('full-path', 'media-type')
                        if x not in d), w)
            continue
        kp, kt = field(d['full-path'], coll), field(d['media-type'], coll)
        if kp is None:
            ctx.bad('X06.entries', 'file-entry', 'full-path is %s, which is '
                    'no field of the record of a part'
                    % short(d['full-path']), w)
            continue
        if kt is None:
            ctx.bad('X06.entries', 'file-entry', 'media-type is %s, which is '
                    'no field of the record of a part'
                    % short(d['media-type']), w)
            continue
        back, out = iterations(g, h)
        ok = back is not None
        for p in back or ():
            k = sum(1 for n in nodes_on(g, p) if n.id in
                    {x.id for x, _, _ in inner})
            if k != 1 and feasible(g, p):
                ctx.bad('X06.entries', 'file-entry', 'a record of a part '
                        'makes %s in the manifest' % (
                            'no entry' if not k else '%d entries' % k), w)
                ok = False
                break
        for p in out or ():
            if entered(g, p):
                if feasible(g, p):
                    ctx.bad('X06.entries', 'file-entry', 'the manifest may '
                            'be left before all entries are made', w)
                    ok = False
                    break
        if ok:
            ctx.ok('X06.entries', 'file-entry')
        stores(ctx, g, coll, kp, kt, parts, exits)


def entered(g, path):
    """the path enters the body of the loop"""
    for x, l, y in path:
        if g.nodes[x].kind == 'next':
            return l == 'T'
    return False


def container_key(t):
    """identity of a collection, whatever has been added"""
    for s in subterms(t):
        if s.op == 'container':
            return s
    return t


def stores(ctx, g, coll, kp, kt, parts, exits):
    c = container_key(coll)
    apps = []
    for n in g.nodes:
        obj, name = method(n)
        if obj is not None and name in ('append', 'add', 'insert',
                                        'appendleft') and \
                container_key(obj) is c and n.args:
            apps.append((n, n.args[-1]))
        elif obj is not None and (obj is c or obj is coll) and name in (
                'pop', 'remove', 'clear', 'popleft'):
            ctx.bad('X06.manifest', 'records', 'records of parts are removed '
                    '(%s)' % name, ctx.where(n))
        elif n.kind == 'setitem' and container_key(n.obj) is c:
            apps.append((n, T('tuple', n.key, n.value)))
    if not apps and c.op == 'container':
        return ctx.bad('X06.manifest', 'records', 'no part is recorded for '
                       'the manifest', ctx.where(parts[0].n))
    names = {}
    for p in parts:
        names.setdefault(p.name, []).append(p)
    for name, ps in sorted(names.items(), key=lambda x: x[1][0].text):
        p = ps[0]
        key = key_of(p)
        via = {}
        wrong = None
        for n, rec in apps:
            v = project(rec, kp)
            if v is None:
                if rec.op in ('dict', 'tuple'):
                    wrong = (n, None)
                else:
                    return
                continue
            if strip(v) is name:
                via[n.id] = rec
            elif wrong is None:
                wrong = (n, v)
        if not via:
            ctx.bad('X06.manifest', key, 'the part %s is not recorded for '
                    'the manifest' % p.text, ctx.where(p.n))
            continue
        ids = {x.n.id for x in ps}
        bad = None
        for x in ps:
            # the record comes before or after the write
            b = avoiding(g, [g.entry], {x.n.id}, set(via)) is not None
            heads = {h for h in loops_of(g, x.n.id)}
            a = avoiding(g, after(g, x.n.id), exits | heads, set(via)) \
                is not None
            if heads and not b:
                b = any(avoiding(g, [h], {x.n.id}, set(via)) is not None
                        for h in heads)
            if a and b:
                bad = 'the part %s may be missing in the manifest' % p.text
        for i in via:
            if avoiding(g, after(g, i), exits | loops_of(g, i), ids) \
                    is not None and \
                    avoiding(g, [g.entry] + list(loops_of(g, i)), {i}, ids) \
                    is not None:
                bad = bad or 'the manifest may list %s without the part' \
                    % p.text
            if avoiding(g, after(g, i), set(via), ids | loops_of(g, i)) \
                    is not None:
                bad = bad or '%s may be listed twice in the manifest' % p.text
        for x in ps:
            if avoiding(g, after(g, x.n.id), ids, loops_of(g, x.n.id)) \
                    is not None:
                bad = bad or 'the part %s may be written twice' % p.text
        for i, rec in via.items():
            v = project(rec, kt)
            t = cval(strip(v)) if v is not None else None
            if v is None:
                bad = bad or 'the record of %s has no media type' % p.text
            elif is_const(strip(v)) and not (
                    isinstance(t, str) and re.match(r'^[\w.+-]+/[\w.+-]+$',
                                                    t)):
                bad = bad or 'the media type of %s is %r' % (p.text, t)
            elif p.const in ROOTS and t is not None and \
                    t not in ('text/xml', 'application/xml'):
                bad = bad or 'the media type of %s is %s' % (p.text, t)
            elif (p.const or '').endswith('.rdf') and t is not None and \
                    t != 'application/rdf+xml':
                bad = bad or 'the media type of %s is %s' % (p.text, t)
        if bad:
            ctx.bad('X06.manifest', key, bad, ctx.where(p.n))
        else:
            ctx.ok('X06.manifest', key)
    # records that belong to no part
    for n, rec in apps:
        v = project(rec, kp)
        if v is not None and strip(v) not in names:
            ctx.bad('X06.manifest', short(v, 60), 'the manifest lists %s, '
                    'which is not written' % short(v, 60), ctx.where(n))


def key_of(p):
    return p.const if p.const is not None else 'BinData item' if mentions(
        p.name, lambda s: s.op == 'elem') else p.text


def loops_of(g, nid):
    """heads of the loops around a node"""
    cache = g.__dict__.setdefault('_loops_of', {})
    if nid not in cache:
        cache[nid] = {n.id for n in g.nodes if n.kind == 'loop'
                      and nid in natural(g, n.id)
                      and nid != n.id}
    return cache[nid]


# contents of the parts ------------------------------------------------------
def resources(t):
    return {cval(s) for s in subterms(t) if is_const(s) and
            isinstance(cval(s), str) and cval(s).endswith('.xsl')}


def handles(g, data):
    """file objects that hold what `data` is read from"""
    out = set()
    for s in subterms(data):
        fn, args = fn_args(s)
        if fn is not None and fn.op == 'ext' and \
                fn.args[0].endswith('mkstemp'):
            out.add(s)
    return out


def made_by(g, data):
    """stylesheets whose output is written to the file that is read"""
    out = set()
    hs = handles(g, data)
    if not hs:
        return None
    for n in g.nodes:
        if n.kind != 'call' or not n.get('args'):
            continue
        if any(s in hs for a in n.args for s in subterms(a)):
            r = resources(n.fn)
            if r:
                out |= r
    return out


def root_element(ctx, path):
    """name of the root element that a stylesheet writes, None if unknown"""
    try:
        s = Sheet(ctx, path)
    except Exception:
        return None
    sheets = {path: s}
    st = [s]
    while st:
        x = st.pop()
        for e in x.imports:
            p = os.path.normpath(os.path.join(os.path.dirname(x.path),
                                              e.attrs.get('href', '')))
            if p not in sheets and os.path.exists(p):
                sheets[p] = Sheet(ctx, p)
                st.append(sheets[p])
    allt = [t for x in sheets.values() for t in x.templates]
    start = [t for t in s.templates if t.attrs.get('match') == '/'] or \
        [t for t in allt if t.attrs.get('match') == '/']
    todo, seen, roots = list(start), set(), set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        tops(t, allt, todo, roots)
    return roots.pop() if len(roots) == 1 else None


def tops(e, allt, todo, roots):
    for c in e.children:
        if c.xsl is None:
            roots.add(c.name.rpartition('|')[2])
        elif c.xsl == 'element':
            roots.add(c.attrs.get('name', '').split(':')[-1])
        elif c.xsl == 'apply-templates':
            m = c.attrs.get('mode')
            sel = c.attrs.get('select', '').split('/')[-1]
            todo += [t for t in allt if t.attrs.get('mode') == m and
                     'match' in t.attrs and
                     (not sel or sel in t.attrs['match'].split('|'))]
        elif c.xsl == 'call-template':
            todo += [t for t in allt if t.attrs.get('name') ==
                     c.attrs.get('name')]
        elif c.xsl in ('if', 'choose', 'when', 'otherwise', 'for-each'):
            tops(c, allt, todo, roots)


def contents(ctx, g, parts, exits):
    names = {p.const for p in parts if p.const is not None}
    base = os.path.join(ctx.prog.src, 'hwp5')
    for need in sorted(ROOTS):
        if need not in names:
            ctx.bad('X06.parts', need, 'the package gets no %s' % need,
                    ctx.where(parts[0].n) if parts else OD)
    for p in parts:
        if p.const in ROOTS:
            if avoiding(g, [g.entry], exits, {
                    x.n.id for x in parts if x.const == p.const}) is not None:
                ctx.bad('X06.parts', p.const, 'a package may be finished '
                        'without %s' % p.const, ctx.where(p.n))
                continue
            r = made_by(g, p.data)
            if r is None or not r:
                continue
            if len(r) > 1:
                ctx.bad('X06.parts', p.const, 'the part %s is made by several '
                        'stylesheets: %s' % (p.const, ', '.join(sorted(r))),
                        ctx.where(p.n))
                continue
            f = os.path.join(base, *r.copy().pop().split('/'))
            if not os.path.exists(f):
                ctx.bad('X06.parts', p.const, 'the stylesheet %s of %s does '
                        'not exist' % (r.pop(), p.const), ctx.where(p.n))
                continue
            root = root_element(ctx, f)
            if root is not None and root != ROOTS[p.const]:
                ctx.bad('X06.parts', p.const, 'the part %s is made by %s, '
                        'which writes office:%s' % (p.const, r.pop(), root),
                        ctx.where(p.n))
                continue
            if not flushed(g, p):
                ctx.bad('X06.parts', p.const, 'the part %s may be read before '
                        'all of it is written' % p.const, ctx.where(p.n))
                continue
            ctx.ok('X06.parts', p.const)
        elif (p.const or '').endswith('.rdf'):
            rdf(ctx, g, p, names)


def flushed(g, p):
    """the temporary file is flushed (or closed) before it is read"""
    hs = handles(g, p.data)
    reads, flush, writes = set(), set(), set()
    for n in g.nodes:
        if n.kind != 'call':
            continue
        obj, m = method(n)
        args = [a for a in (n.get('args') or ())]
        about = any(s in hs for a in args for s in subterms(a))
        if n.get('result') is not None and any(
                s is n.result for s in subterms(p.data)) and about:
            reads.add(n.id)
        if obj is not None and m in ('flush', 'close') and any(
                s in hs for s in subterms(obj)):
            flush.add(n.id)
        if about and resources(n.fn):
            writes.add(n.id)
    fd = {n.id for n in g.nodes if n.kind == 'call' and
          n.get('fn') is not None and n.fn.op == 'ext' and
          n.fn.args[0].endswith('fdopen')}
    reads -= fd
    if not writes or not reads:
        return True
    return avoiding(g, [y for w in writes for y in after(g, w)], reads,
                    flush) is None


def rdf(ctx, g, p, names):
    """the metadata names parts of the package"""
    texts = [cval(s) for s in subterms(p.data) if is_const(s) and
             isinstance(cval(s), (bytes, str))]
    bufs = {s for s in subterms(p.data) if s.op == 'res'}
    for n in g.nodes:
        obj, m = method(n)
        if m == 'write' and obj in bufs and n.args and is_const(n.args[0]):
            texts.append(cval(n.args[0]))
    about = set()
    for t in texts:
        if isinstance(t, bytes):
            t = t.decode('utf-8', 'replace')
        about |= set(re.findall(r'rdf:(?:resource|about)="([^"]*)"', t))
    about.discard('')
    if not about:
        return
    missing = sorted(about - names)
    if missing:
        ctx.bad('X06.parts', p.const, 'the metadata names %s, which the '
                'package does not contain' % ', '.join(missing),
                ctx.where(p.n))
    elif not set(ROOTS) <= about:
        ctx.bad('X06.parts', p.const, 'the metadata does not name %s'
                % ', '.join(sorted(set(ROOTS) - about)), ctx.where(p.n))
    else:
        ctx.ok('X06.parts', p.const)


# images ---------------------------------------------------------------------
def concat(t):
    """parts of a concatenated text, constants joined"""
    t = strip(t)
    if t.op == 'bin' and t.args[0] == '+' or t.op == 'add':
        xs = t.args[-2:]
        out = concat(xs[0]) + concat(xs[1])
    else:
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'ext' and \
                fn.args[0] in ('os.path.join', 'posixpath.join'):
            out = []
            for i, a in enumerate(args):
                out += (['/'] if i else []) + concat(a)
        elif is_const(t) and isinstance(cval(t), str):
            out = [cval(t)]
        else:
            out = [t]
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        elif x != '':
            res.append(x)
    return res


def bindata(t):
    """the collection of embedded files"""
    if t.op in ('sub', 'item') and cval(t.args[1]) == 'BinData':
        return True
    return lookup(t, 'BinData') is not None


def images(ctx, g, parts, exits):
    """(prefix under which images are stored)"""
    loops = [n for n in g.nodes if n.kind == 'next' and
             n.get('iter') is not None and any(
                 bindata(s) for s in subterms(n.iter))]
    found = []
    for p in parts:
        for s in subterms(p.name):
            if s.op == 'elem' and any(bindata(x) for x in subterms(s)):
                found.append((p, s))
                break
    if not found:
        return ctx.bad('X06.images', 'package', 'the embedded files are not '
                       'written into the package',
                       ctx.where(loops[0] if loops else parts[0].n))
    for p, el in found:
        c = concat(p.name)
        if not (len(c) == 2 and isinstance(c[0], str)):
            if all(isinstance(x, str) or x is el for x in c):
                ctx.bad('X06.images', 'package', 'an embedded file is stored '
                        'as %s' % short(p.name), ctx.where(p.n))
            continue
        if c[1] is not el:
            if not mentions(c[1], lambda s: s.op in ('res', 'pure')):
                ctx.bad('X06.images', 'package', 'an embedded file is stored '
                        'as %s' % short(p.name), ctx.where(p.n))
            continue
        if not any(s.op == 'sub' and s.args[1] is el or
                   s.op == 'res' and el in s.args[2]
                   for s in subterms(p.data)):
            ctx.bad('X06.images', 'package', 'the entry %s holds %s'
                    % (short(p.name), short(p.data)), ctx.where(p.n))
            continue
        heads = [h for h in loops_of(g, p.n.id)
                 if g.nodes[h].get('iter') is el.args[0]]
        ok = True
        for h in heads:
            ids = {x.n.id for x, e in found if e is el}
            back, out = iterations(g, h)
            for path in back or ():
                k = sum(1 for n in nodes_on(g, path) if n.id in ids)
                if k != 1 and feasible(g, path):
                    ctx.bad('X06.images', 'package', 'an embedded file may '
                            'be %s' % ('left out' if not k else
                                       'stored twice'), ctx.where(p.n))
                    ok = False
                    break
            for path in out or ():
                if entered(g, path) and feasible(g, path):
                    ctx.bad('X06.images', 'package', 'the embedded files '
                            'after some may be left out', ctx.where(p.n))
                    ok = False
                    break
            # reached whenever the document has embedded files
            if ok and skipped(g, h, exits):
                ctx.bad('X06.images', 'package', 'the embedded files may be '
                        'left out', ctx.where(p.n))
                ok = False
        if ok:
            refs(ctx, c[0], 'odt/', 'package', p.n)


def skipped(g, h, exits):
    """a path to the end without the loop that does not depend on whether
    there are embedded files"""
    seen, st = set(), [g.entry]
    while st:
        x = st.pop()
        if x in seen or x == h:
            continue
        seen.add(x)
        if x in exits:
            return True
        n = g.nodes[x]
        for y, l in n.succ:
            if l in NORMAL:
                continue
            if n.kind == 'branch' and l in ('T', 'F') and \
                    empty(n.cond, l == 'T'):
                continue
            st.append(y)
    return False


def empty(c, pol):
    """the branch is taken for documents without embedded files"""
    while c.op == 'not':
        c, pol = c.args[0], not pol
    if c.op == 'cmp' and c.args[0] in ('in', 'not in') and \
            cval(c.args[1]) == 'BinData':
        return (c.args[0] == 'in') != pol
    if c.op in ('and', 'or'):
        return (c.op == 'and') == pol and any(empty(x, pol) for x in c.args)
    if c.op == 'cmp' and c.args[0] in ('is', 'is not') and \
            cval(c.args[2], 0) is None and mentions(c.args[1], bindata):
        return (c.args[0] == 'is') == pol
    if mentions(c, bindata) and c.op != 'cmp':
        return not pol
    return False


def variables(e, name):
    """constant value of a variable in scope of an element"""
    x = e
    while x is not None:
        p = x.parent
        if p is not None:
            for s in p.children:
                if s is x:
                    break
                if s.xsl in ('variable', 'param') and \
                        s.attrs.get('name') == name:
                    return s
        x = p
    return None


def pieces(e, depth=0):
    """text produced by the content of an element: texts and expressions"""
    out = []
    for c in e.content:
        if isinstance(c, str):
            if c.strip():
                out.append(c.strip('\n\t') if e.xsl != 'text' else c)
            elif e.xsl == 'text':
                out.append(c)
        elif c.xsl == 'text':
            out += pieces(c)
        elif c.xsl == 'value-of':
            out += expr(c, c.attrs.get('select', ''), depth)
        elif c.xsl in ('variable', 'param'):
            continue
        else:
            out.append(None)
    res = []
    for x in out:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def expr(e, sel, depth=0):
    sel = sel.strip()
    if depth > 5:
        return [None]
    m = re.match(r"^'([^']*)'$|^\"([^\"]*)\"$", sel)
    if m:
        return [m.group(1) or m.group(2) or '']
    m = re.match(r'^\$([\w-]+)$', sel)
    if m:
        v = variables(e, m.group(1))
        if v is None:
            return [None]
        if 'select' in v.attrs:
            return expr(v, v.attrs['select'], depth + 1)
        return pieces(v, depth + 1)
    m = re.match(r'^concat\((.*)\)$', sel, re.S)
    if m:
        out = []
        for x in re.findall(r"'[^']*'|\"[^\"]*\"|[^,]+", m.group(1)):
            out += expr(e, x, depth + 1)
        return out
    m = re.match(r'^string\((.*)\)$', sel)
    if m:
        return expr(e, m.group(1), depth + 1)
    return [('expr', sel.replace('./', ''))]


def references(ctx, within):
    """[(file, line, pieces)] of the references to embedded files"""
    out = []
    for f in xsl.stylesheets(ctx.prog.src):
        r = rel(ctx.prog.src, f).replace(os.sep, '/')
        if '/odt/' in r:
            kind = 'odt/'
        else:
            kind = 'html'
        if kind != within:
            continue
        s = Sheet(ctx, f)
        for e in s.root.walk():
            ps = None
            if e.xsl in ('attribute', 'template', 'when', 'otherwise', 'if',
                         'variable', 'with-param', 'for-each'):
                if any(not isinstance(c, str) and c.xsl == 'value-of' and
                       'storage-id' in c.attrs.get('select', '')
                       for c in e.content):
                    ps = pieces(e)
            if ps is None:
                for k, v in e.attrs.items():
                    if 'storage-id' in v and '{' in v and e.xsl is None:
                        ps = []
                        for a, b in re.findall(r'([^{}]+)|\{([^{}]*)\}', v):
                            ps += [a] if a else expr(e, b)
            if ps:
                out.append((r, e.line, ps))
    return out


def joined(ps):
    res = []
    for x in ps:
        if x == '':
            continue
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


def refs(ctx, prefix, within, key, n):
    rs = references(ctx, within)
    for r, line, ps in rs:
        ps = joined(ps)
        if None in ps:
            continue
        want = [prefix, ('expr', '@storage-id'), '.', ('expr', '@ext')]
        if ps != want:
            ctx.bad('X06.images', key, '%s refers to an embedded file as %s, '
                    'it is stored as %s{storage-id}.{ext}' % (
                        r, ''.join(x if isinstance(x, str) else '{%s}'
                                   % x[1].lstrip('@') for x in ps), prefix),
                    '%s:%d' % (r, line))
            return
    ctx.ok('X06.images', key)
    storage_names(ctx)


def storage_names(ctx):
    """the ids of storages in the XML are the names of the streams"""
    fmts = {}
    for f, g in ctx.graphs.items():
        for n in g.nodes:
            for k, v in n.d.items():
                for x in (v if isinstance(v, tuple) else (v,)):
                    if isinstance(x, tuple):
                        continue
                    if isinstance(x, Term):
                        for s in subterms(x):
                            if s.op == 'bin' and s.args[0] == '%' and \
                                    is_const(s.args[1]) and isinstance(
                                        cval(s.args[1]), str) and \
                                    cval(s.args[1]).startswith('BIN%'):
                                fmts.setdefault(cval(s.args[1]),
                                                (f.fullname, n))
    if len(fmts) > 1:
        a = sorted(fmts)
        ctx.bad('X06.images', 'names', 'the names of embedded files are '
                'written as %s in %s and as %s in %s' % (
                    a[0], fmts[a[0]][0], a[1], fmts[a[1]][0]),
                fmts[a[0]][0])
    elif fmts:
        ctx.ok('X06.images', 'names')


# directories ----------------------------------------------------------------
HT = 'hwp5.hwp5html'


def html(ctx):
    if ctx.prog.cls(HT, 'HTMLTransform') is None:
        return
    g = ctx.query('from hwp5.hwp5html import HTMLTransform\n'
                  'def q(hwp5file, compile, outdir):\n'
                  '    t = HTMLTransform(compile)\n'
                  '    t.transform_hwp5_to_dir(hwp5file, outdir)\n')
    files = {}
    for n in g.nodes:
        fn = n.get('fn') if n.kind == 'call' else None
        if fn is None or not n.get('args'):
            continue
        for a in n.args:
            c = concat(a)
            if len(c) >= 2 and isinstance(c[0], Term) and \
                    c[0].op in ('sym', 'param', 'arg') and \
                    short(c[0]) == 'outdir' and isinstance(c[1], str):
                nm = c[1].lstrip('/')
                files.setdefault(nm, []).append((n, c))
    # the stylesheet that index.xhtml refers to
    links = set()
    for f in xsl.stylesheets(ctx.prog.src):
        r = rel(ctx.prog.src, f).replace(os.sep, '/')
        if '/odt/' in r:
            continue
        for e in Sheet(ctx, f).root.walk():
            if e.xsl == 'attribute' and e.attrs.get('name') == 'href':
                ps = pieces(e)
                if len(ps) == 1 and isinstance(ps[0], str) and \
                        ps[0].endswith('.css'):
                    links.add((ps[0], r, e.line))
    for l, r, line in sorted(links):
        if files and l not in files:
            ctx.bad('X06.images', 'html', '%s refers to %s, which is not '
                    'written' % (r, l), '%s:%d' % (r, line))
        elif files:
            ctx.ok('X06.parts', 'html: ' + l)
    dirs = {}
    for nm, xs in files.items():
        for n, c in xs:
            fn = n.fn
            if nm.endswith('/') or len(c) > 2:
                dirs.setdefault(nm.split('/')[0] + '/', n)
            elif fn.op == 'ext' and fn.args[0].split('.')[-1] in (
                    'mkdir', 'makedirs'):
                dirs.setdefault(nm + '/', n)
    for d, n in sorted(dirs.items()):
        refs(ctx, d, 'html', 'html', n)


O = 'hwp5/hwp5odt.py'
REC = "        self.files.append(dict(full_path=path, media_type=media_type))\n"
MIME = """        self.zf.writestr('mimetype',
                         'application/vnd.oasis.opendocument.text',
                         ZIP_STORED)
"""
MAN = "        self.zf.writestr('META-INF/manifest.xml', manifest.getvalue())\n"
BIN = """                with closing(bindata[name].open()) as f:
                    odtpkg.insert_stream(f, path, mimetype)
"""
witnesses = [
    ('part not recorded', O, REC, ''),
    ('recorded for some types only', O, REC,
     "        if media_type != 'application/octet-stream':\n    " + REC),
    ('recorded under its base name', O, REC,
     REC.replace('full_path=path', 'full_path=os.path.basename(path)')),
    ('recorded twice', O, REC, REC + REC),
    ('stream written directly', O, BIN, """                with closing(bindata[name].open()) as f:
                    odtpkg.zf.writestr(path, f.read())
"""),
    ('manifest before the images', [
        (O, MAN, ''),
        (O, """        def transform(xhwp5path, odtpkg):
""", """        def transform(xhwp5path, odtpkg):
            manifest = BytesIO()
            manifest_xml(manifest, odtpkg.files)
            odtpkg.zf.writestr('META-INF/manifest.xml', manifest.getvalue())
""")]),
    ('no manifest without files', O, MAN,
     "        if self.files:\n    " + MAN),
    ('archive not closed', O, "\n        self.zf.close()\n", '\n'),
    ('closed before manifest', O, MAN + "\n        self.zf.close()\n",
     "        self.zf.close()\n" + MAN),
    ('mimetype last', [(O, MIME, ''), (O, MAN, MAN + MIME)]),
    ('mimetype compressed', [
        (O, MIME, MIME.replace("ZIP_STORED", "ZIP_DEFLATED")),
        (O, 'from zipfile import ZIP_STORED',
         'from zipfile import ZIP_DEFLATED')]),
    ('archive compressed', [
        (O, MIME, MIME.replace(""",
                         ZIP_STORED""", '')),
        (O, "ZipFile(path_or_zipfile, 'w')",
         "ZipFile(path_or_zipfile, 'w', 8)")]),
    ('wrong type', O, "writestr('mimetype',\n                         "
     "'application/vnd.oasis.opendocument.text'",
     "writestr('mimetype',\n                         "
     "'application/vnd.oasis.opendocument.text-template'"),
    ('entries of text parts only', O,
     "        file_entry(full_path, media_type)\n",
     "        if media_type.startswith('text/'):\n"
     "            file_entry(full_path, media_type)\n"),
    ('stops at the first image', O,
     "        file_entry(full_path, media_type)\n",
     "        if full_path.startswith('bindata'):\n            break\n"
     "        file_entry(full_path, media_type)\n"),
    ('path and type swapped', O, "file_entry(full_path, media_type)\n",
     "file_entry(media_type, full_path)\n"),
    ('no entry for the package', O,
     "    file_entry('/', 'application/vnd.oasis.opendocument.text', "
     "version='1.2')\n", ''),
    ('styles and content swapped', [
        (O, "resource_path = RESOURCE_PATH_XSL_STYLE\n",
         "resource_path = RESOURCE_PATH_XSL_CONTENT_\n"),
        (O, "resource_path = RESOURCE_PATH_XSL_CONTENT\n",
         "resource_path = RESOURCE_PATH_XSL_STYLE\n"),
        (O, "resource_path = RESOURCE_PATH_XSL_CONTENT_\n",
         "resource_path = RESOURCE_PATH_XSL_CONTENT\n")]),
    ('single document as content', O,
     "resource_path = RESOURCE_PATH_XSL_CONTENT\n",
     "resource_path = RESOURCE_PATH_XSL_SINGLE_DOCUMENT\n"),
    ('not flushed', O, "        f.flush()\n", ''),
    ('metadata names another part', O,
     '<pkg:hasPart rdf:resource="styles.xml"/>',
     '<pkg:hasPart rdf:resource="style.xml"/>'),
    ('content only without styles', O,
     "                odtpkg.insert_path(path, 'styles.xml', 'text/xml')\n",
     "                if os.path.getsize(path):\n"
     "                    odtpkg.insert_path(path, 'styles.xml', "
     "'text/xml')\n"),
    ('images elsewhere', O, "path = 'bindata/' + name",
     "path = 'BinData/' + name"),
    ('reference elsewhere', 'hwp5/xsl/odt/common.xsl',
     """<xsl:variable name="binpath" select="'bindata/'"/>""",
     """<xsl:variable name="binpath" select="'Pictures/'"/>"""),
    ('reference without extension', 'hwp5/xsl/odt/common.xsl',
     '<xsl:value-of select="@storage-id"/>.<xsl:value-of select="@ext"/>',
     '<xsl:value-of select="@storage-id"/>'),
    ('html reference elsewhere', 'hwp5/xsl/hwp5css-common.xsl',
     "<xsl:text>bindata/</xsl:text>", "<xsl:text>BinData/</xsl:text>"),
    ('html images elsewhere', 'hwp5/hwp5html.py',
     "os.path.join(outdir, 'bindata')", "os.path.join(outdir, 'images')"),
    ('stylesheet of html elsewhere', 'hwp5/hwp5html.py',
     "os.path.join(outdir, 'styles.css')",
     "os.path.join(outdir, 'style.css')"),
    ('names of storages in decimal', 'hwp5/xmlformat.py',
     "'BIN%04X' % value", "'BIN%04d' % value"),
    ('images of some documents', O, "        if 'BinData' in hwp5file:\n",
     "        if 'BinData' in hwp5file and "
     "not hwp5file.header.flags.password:\n"),
    ('some images left out', O, "            for name in bindata:\n",
     "            for name in bindata:\n"
     "                if name.lower().endswith('.ole'):\n"
     "                    continue\n"),
    ('manifest read from its end', O,
     "manifest.seek(0)\n        self.zf.writestr('META-INF/manifest.xml', "
     "manifest.getvalue())",
     "self.zf.writestr('META-INF/manifest.xml', manifest.read())"),
    ('package left open', O,
     "    with closing(odtpkg):\n        yield odtpkg\n",
     "    yield odtpkg\n"),
]

benign = [
    ('tuples', [(O, REC, "        self.files.append((path, media_type))\n"),
                (O, """        e = dict(e)
        full_path = e.pop('full_path')
        media_type = e.pop('media_type', 'application/octet-stream')
""", "        full_path, media_type = e\n")]),
    ('recorded before', O, "        self.zf.writestr(path, f.read())\n" + REC,
     REC + "        self.zf.writestr(path, f.read())\n"),
    ('recorded by a method', [
        (O, REC, "        self._record(path, media_type)\n"),
        (O, "    def close(self):\n", """    def _record(self, p, m):
        entry = {'full_path': p, 'media_type': m}
        self.files.append(entry)

    def close(self):
""")]),
    ('subscripts', O, """        e = dict(e)
        full_path = e.pop('full_path')
        media_type = e.pop('media_type', 'application/octet-stream')
        file_entry(full_path, media_type)
""", "        file_entry(e['full_path'], e['media_type'])\n"),
    ('keyword', O, """                         ZIP_STORED)
""", """                         compress_type=ZIP_STORED)
"""),
    ('default', O, """,
                         ZIP_STORED)
""", """)
"""),
    ('mimetype by the opener', [
        (O, MIME, ''),
        (O, "        self.files = []\n", "        self.files = []\n"
         "        self.zf = None\n"),
        (O, "        self.zf = zipfile\n", "        self.zf = zipfile\n"
         "        self._write_mimetype()\n"),
        (O, "    def insert_path(", "    def _write_mimetype(self):\n" + MIME +
         "\n    def insert_path(")]),
    ('helper for parts', O, """            with self.transformed_styles_at_temp(xhwp5path) as path:
                odtpkg.insert_path(path, 'styles.xml', 'text/xml')
            with self.transformed_content_at_temp(xhwp5path) as path:
                odtpkg.insert_path(path, 'content.xml', 'text/xml')
""", """            parts = [
                ('styles.xml', self.transformed_styles_at_temp),
                ('content.xml', self.transformed_content_at_temp),
            ]
            for name, make in parts:
                with make(xhwp5path) as path:
                    odtpkg.insert_path(path, name, 'text/xml')
"""),
    ('no BinData', O, """        if 'BinData' in hwp5file:
            bindata = hwp5file['BinData']
            for name in bindata:
                path = 'bindata/' + name
                mimetype = 'application/octet-stream'
                with closing(bindata[name].open()) as f:
                    odtpkg.insert_stream(f, path, mimetype)
""", """        if 'BinData' not in hwp5file:
            return
        bindata = hwp5file['BinData']
        for name in sorted(bindata):
            f = bindata[name].open()
            try:
                odtpkg.insert_stream(f, '%s/%s' % ('bindata', name),
                                     'application/octet-stream')
            finally:
                f.close()
"""),
    ('close in finally', O,
     "    with closing(odtpkg):\n        yield odtpkg\n",
     "    try:\n        yield odtpkg\n    finally:\n        odtpkg.close()\n"),
    ('concat', 'hwp5/xsl/odt/common.xsl',
     '<xsl:value-of select="$binpath"/><xsl:value-of select="@storage-id"/>.'
     '<xsl:value-of select="@ext"/>',
     "<xsl:value-of select=\"concat('bindata/', @storage-id, '.', @ext)\"/>"),
]
