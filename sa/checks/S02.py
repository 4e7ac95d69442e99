# -*- coding: utf-8 -*-
"""S02 streams are unwrapped exactly as the file header flags say."""
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import walk
from ..prog import ClassInfo, FuncInfo
from ._util import short, fn_args, refine, returns
from .S01 import document_classes, different

TECHNIQUE = ('composition of the storage layers, evaluated over the inlined '
             'constructors for each of the 8 flag settings, and of the '
             'effect of each layer on each stream of the container, compared '
             'with the prescribed sequence of transformations')
LEVEL_NOTE = ('Streams are followed through symbolic names below the storages '
              'of the format. What decryption and inflation do is decided by '
              'S03 and S04.')
EXPLANATION = '''For each assignment of the flags password, distributable
and compressed the constructor of every document class is evaluated and the
chain of layers below the finished object determined. For every layer and every
stream path of the format (and a name the format does not know) the value of
opening the stream is evaluated, with the layer's look-up and the wrappers it
puts around items inlined; the decoding functions around the opened underlying
stream, and the path by which that stream was looked up, are read off. The
sequences along the chain are compared with the prescribed ones. The flags
must be the bits 0, 1 and 2 of the header, and the text of a document the
view text exactly if the flag for distribution documents is set.'''

FS = 'hwp5.filestructure'
MODS = ('hwp5.filestructure', 'hwp5.storage', 'hwp5.utils', 'hwp5.binmodel',
        'hwp5.xmlmodel', 'hwp5.recordstream')
FLAGS = {'compressed': 0, 'password': 1, 'distributable': 2}
STREAMS = ('FileHeader', 'DocInfo', 'PrvText', 'PrvImage',
           '\5HwpSummaryInformation', 'Unknown')
STORAGES = ('BodyText', 'ViewText', 'BinData', 'Scripts', 'DocOptions',
            'XMLTemplate', 'DocHistory', 'Bibliography', 'Unknown')
DECODERS = {'hwp5.distdoc': 'decrypt', 'hwp5.compressed': 'inflate',
            'hwp5.zlib_raw_codec': 'inflate', 'zlib': 'inflate'}


def inline(f, w):
    return f.module.name in MODS


def expected(path, flags):
    if flags['password']:
        return ()
    out = []
    n = path[0]
    if flags['distributable'] and len(path) == 2 and \
            n in ('Scripts', 'ViewText'):
        out.append('decrypt')
    if flags['compressed'] and (
            len(path) == 2 and n in ('BodyText', 'ViewText', 'BinData',
                                     'Scripts') or path == ('DocInfo',)):
        out.append('inflate')
    return tuple(out)


WRAPPED = ['wrapped']


def inner_attr(ctx):
    """the attribute by which wrappers hold what they wrap"""
    c = ctx.prog.cls('hwp5.storage', 'ItemWrapper')
    init = c and ctx.prog.method(c, '__init__')
    if init is not None:
        names = [n.attr for n in ctx.graphs[init].nodes
                 if n.kind == 'setattr' and n.value.op == 'sym']
        if len(names) == 1:
            return names[0]
    return 'wrapped'


def run(ctx):
    WRAPPED[0] = inner_attr(ctx)
    ctx.rule('S02.layers', 'each stream passes exactly the transformations '
             'its flags prescribe, in their order, and is the one that was '
             'asked for', 40)
    ctx.rule('S02.flags', 'the flags are the bits of the header', 3)
    ctx.rule('S02.text', 'the text is the view text exactly in distribution '
             'documents', 2)
    flag_bits(ctx)
    classes = [c for c in document_classes(ctx)
               if ctx.prog.is_subclass(c, ctx.need_class(FS, 'Hwp5File'))]
    memo = {}
    for c in classes:
        name = '%s.%s' % (c.module.name, c.name)
        for k in range(8):
            flags = {f: bool(k >> i & 1)
                     for i, f in enumerate(sorted(FLAGS))}
            for chain in chains(ctx, c, flags, name):
                for path in [(s,) for s in STREAMS] + \
                        [(s, None) for s in STORAGES]:
                    layers(ctx, name, flags, chain, path, memo)
        text_rule(ctx, c, name)


def flag_bits(ctx):
    c = ctx.need_class(FS, 'FileHeader')
    ms = {m['name']: m for m in ctx.layout.own_members(c)}
    m = ms.get('flags')
    fields = None
    if m is not None and isinstance(m.get('type'), dict):
        fields = m['type'].get('fields')
    if fields is None:
        return
    at = {f[0]: (f[1], f[2]) for f in fields}
    for f, bit in FLAGS.items():
        ctx.check(at.get(f) == (bit, bit), 'S02.flags', f,
                  'the flag %s is not bit %d of the header' % (f, bit),
                  c.module.relpath)


def flag_of(t):
    """the name of the flag t is, or None"""
    if t.op == 'attr' and t.args[1] in FLAGS and (
            t.args[0].op == 'attr' and t.args[0].args[1] == 'flags' or
            'flags' in short(t.args[0], 400).lower()):
        return t.args[1]
    if t.op == 'bin' and t.args[0] == '&':
        for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if is_const(b) and isinstance(cval(b), int) and \
                    'flags' in short(a, 400).lower():
                for f, bit in FLAGS.items():
                    if cval(b) == 1 << bit:
                        return f
    return None


def flag_ev(flags):
    def ev(c):
        f = flag_of(c)
        if f is not None:
            return flags[f]
        if c.op == 'cmp':
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                f = flag_of(x)
                if f is not None and is_const(y) and \
                        c.args[0] in ('==', '!=', 'is', 'is not') and \
                        not (isinstance(cval(y), int) and cval(y) > 1):
                    eq = flags[f] == bool(cval(y))
                    return eq if c.args[0] in ('==', 'is') else not eq
        d = different(c)
        return None if d is None else not d
    return ev


def settle(t, ev):
    from ..cases import value
    while t.op == 'ite':
        v = value(t.args[0], ev)
        if v is None:
            return None
        t = t.args[1] if v else t.args[2]
    return t


def chains(ctx, c, flags, name):
    """the possible chains of layers (outermost first)"""
    key = ('chain graph', c)
    memo = ctx.prog.__dict__.setdefault('_s02', {})
    if key not in memo:
        memo[key] = refine(ctx.query(
            'from %s import %s\ndef q(stg):\n    return %s(stg)\n' % (
                c.module.name, c.name, c.name), inline=inline))
    g = memo[key]
    ev = flag_ev(flags)
    seen = walk(g, [g.entry], ev, skip=('exc', 'genexit'))
    tops = []
    for r in returns(g):
        if r.id in seen:
            for v in alternatives(r.value):
                if v not in tops:
                    tops.append(v)
    out = []
    for top in tops:
        for ch in unwrap(g, seen, top, ev, 0):
            if ch not in out:
                out.append(ch)
    return out


def unwrap(g, seen, t, ev, depth):
    if t.op != 'inst' or not isinstance(t.args[0], ClassInfo) or depth > 12:
        return [()]
    nodes = [n for n in g.nodes if n.kind == 'setattr' and n.id in seen and
             n.attr == WRAPPED[0] and n.obj is t]
    # the last assignment counts: the ones it overwrites are on its way
    if len(nodes) > 1 and all(
            b.id in walk(g, [a.id], ev, skip=('exc', 'genexit'))
            for a, b in zip(nodes, nodes[1:])):
        nodes = nodes[-1:]
    sets = []
    for n in nodes:
        v = settle(n.value, ev)
        for x in alternatives(n.value) if v is None else [v]:
            if x not in sets:
                sets.append(x)
    if not sets:
        # the container itself
        return [()]
    out = []
    for x in sets:
        for ch in unwrap(g, seen, x, ev, depth + 1):
            out.append((t.args[0],) + ch)
    return out


def layers(ctx, name, flags, chain, path, memo):
    what = '/'.join('*' if p is None else p for p in path).replace('\5', '')
    ops = [()]
    for cls in reversed(chain):
        key = (cls, path)
        if key not in memo:
            memo[key] = effect(ctx, cls, path)
        e = memo[key]
        if e is None:
            return
        ops = [a + b for a in ops for b in e[0]]
    want = expected(path, flags)
    on = '+'.join(f for f in sorted(flags) if flags[f]) or 'none'
    bad = sorted({o for o in ops if o != want})
    ctx.check(not bad, 'S02.layers', '%s %s [%s]' % (name, what, on),
              'delivered after %s, prescribed is %s (layers: %s)' % (
                  ' or '.join(','.join(b) or 'nothing' for b in bad),
                  ','.join(want) or 'nothing',
                  ' > '.join(c.name for c in chain)))


def effect(ctx, cls, path):
    """set of sequences of transformations one layer applies, or None"""
    if len(path) == 1:
        text = 'def q(self):\n    return self.__getitem__(%r).open()\n' % path
    else:
        text = ('def q(self, child):\n    return self.__getitem__(%r)'
                '.__getitem__(child).open()\n' % path[0])
    try:
        g = refine(ctx.query(text, inline=inline,
                             args={'self': T('inst', cls, 'self')}))
    except RecursionError:
        return None
    base = [path[0]] + (['child'] if len(path) == 2 else [])
    seen = walk(g, [g.entry], kind_ev(len(path)), skip=('exc', 'genexit'))
    out = set()
    for r in returns(g):
        if r.id not in seen:
            continue
        for v in alternatives(r.value):
            ops = ops_of(ctx, cls, v, base, path)
            if ops is None:
                return None
            out.add(ops)
    return (out,) if out else None


def kind_ev(depth):
    """items at this depth of the underlying storage are streams, those above
    are storages"""
    def ev(c):
        t = None
        if c.op == 'pure' and c.args[0].op == 'ext':
            nm = c.args[0].args[0]
            a = c.args[1]
            if nm == 'builtins.hasattr' and len(a) == 2 and is_const(a[1]):
                t, stream = a[0], cval(a[1])
                stream = {'open': True, '__iter__': False,
                          '__getitem__': False}.get(stream)
            elif nm == 'builtins.callable' and a and a[0].op == 'attr' and \
                    a[0].args[1] == 'open':
                t, stream = a[0].args[0], True
        if t is None or stream is None:
            return None
        p = path_of(t)
        if p is None:
            return None
        return stream == (len(p) == depth)
    return ev


def path_of(t):
    """names by which t was looked up in the wrapped storage of the layer"""
    out = []
    while True:
        b = key = None
        if t.op == 'sub':
            b, key = t.args[0], t.args[1]
        else:
            fn, a = fn_args(t)
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] == '__getitem__' and len(a) == 1:
                b, key = fn.args[0], a[0]
        if b is None:
            break
        out.append(cval(key) if is_const(key) else
                   'child' if key is T('sym', 'child') else short(key))
        t = b
    if t.op == 'attr' and t.args[1] == WRAPPED[0] and \
            t.args[0].op == 'inst' and t.args[0].args[1] == 'self':
        return out[::-1]
    return None


def ops_of(ctx, cls, t, base, path):
    """transformations (innermost first) of an opened stream; None: unknown"""
    ops = []
    while True:
        fn, a = fn_args(t)
        if fn is None:
            return None
        if fn.op == 'attr' and fn.args[1] == 'open' and not a:
            p = path_of(fn.args[0])
            if p is None:
                return None
            if p != base:
                ops.append('the look-up of %s' % '/'.join(map(str, p)))
            return tuple(ops[::-1])
        d = decoder(fn)
        if d:
            ops.append(d)
        nxt = [x for x in a if isinstance(x, Term) and opened(x)]
        if len(nxt) != 1:
            return None
        t = nxt[0]


def opened(t):
    for x in subterms(t):
        fn, a = fn_args(x)
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'open' and \
                path_of(fn.args[0]) is not None:
            return True
    return False


def decoder(fn):
    if fn.op == 'func' and isinstance(fn.args[0], FuncInfo):
        return DECODERS.get(fn.args[0].module.name)
    if fn.op == 'class' and isinstance(fn.args[0], ClassInfo):
        return DECODERS.get(fn.args[0].module.name)
    if fn.op == 'ext':
        return DECODERS.get(fn.args[0].split('.')[0])
    return None


def text_rule(ctx, c, name):
    g = refine(ctx.query('def q(self):\n    return self.text\n',
                         inline=inline, args={'self': T('inst', c, 'self')}))
    for dist in (False, True):
        ev = flag_ev({'distributable': dist, 'compressed': False,
                      'password': False})

        def ev1(t):
            if t.op == 'attr' and t.args[1] in ('compressed', 'password'):
                return None
            return ev(t)
        seen = walk(g, [g.entry], ev1, skip=('exc', 'genexit'))
        want = 'ViewText' if dist else 'BodyText'
        bad = []
        known = False
        for r in returns(g):
            if r.id not in seen:
                continue
            v0 = settle(r.value, ev1)
            for v in alternatives(r.value) if v0 is None else [v0]:
                ks = keys_of(g, seen, v)
                if ks:
                    known = True
                bad += [k for k in ks if k != want]
        if known:
            ctx.check(not bad, 'S02.text', '%s %s' % (name, want),
                      'the text of a document that is %sfor distribution is '
                      'taken from %s' % ('' if dist else 'not ',
                                         ', '.join(sorted(set(bad)))))


def keys_of(g, seen, v):
    """names looked up in the document on the way to v"""
    out = {cval(x.args[1]) for x in subterms(v)
           if x.op == 'sub' and is_const(x.args[1]) and
           isinstance(cval(x.args[1]), str)}
    if not out:
        out = {cval(n.key) for n in g.nodes
               if n.kind == 'getitem' and n.id in seen and
               is_const(n.key) and isinstance(cval(n.key), str) and
               cval(n.key).endswith('Text')}
    return {x for x in out if isinstance(x, str)}


F = 'hwp5/filestructure.py'
witnesses = [
    ('order', F, """        if stg.header.flags.distributable:
            stg = Hwp5DistDoc(stg)

        if stg.header.flags.compressed:
            stg = Hwp5Compression(stg)
""", """        if stg.header.flags.compressed:
            stg = Hwp5Compression(stg)

        if stg.header.flags.distributable:
            stg = Hwp5DistDoc(stg)
"""),
    ('else', F, """        if stg.header.flags.compressed:
            stg = Hwp5Compression(stg)
""", """        elif stg.header.flags.compressed:
            stg = Hwp5Compression(stg)
"""),
    ('password goes on', F, """            ItemConversionStorage.__init__(self, stg)
            return

""", ''),
    ('no compression', F, 'if stg.header.flags.compressed:',
     'if stg.header.flags.compressed and not stg.header.flags.script:'),
    ('names', F, "if name in ('BinData', 'BodyText', 'ViewText'):",
     "if name in ('BinData', 'BodyText'):"),
    ('more names', F, "elif name == 'DocInfo':\n            return CompressedStream",
     "elif name in ('DocInfo', 'PrvImage'):\n            return CompressedStream"),
    ('dist names', F, "if name in ('Scripts', 'ViewText'):",
     "if name in ('Scripts', 'BodyText', 'ViewText'):"),
    ('dist scripts', F, "if name in ('Scripts', 'ViewText'):",
     "if name == 'ViewText':"),
    ('some streams', F, """        if is_stream(item):
            return CompressedStream(item)
        else:
            return item
""", """        if is_stream(item) and not name.endswith('.jpg'):
            return CompressedStream(item)
        else:
            return item
"""),
    ('wrong item', F, 'return Hwp5DistDocStream(self.wrapped[name], None)',
     "return Hwp5DistDocStream(self.wrapped['Section0'], None)"),
    ('raw', F, '        return decode(encodedstream)\n',
     '        return encodedstream\n'),
    ('twice', F, 'return decompress(f)',
     'return decompress(decompress(f))'),
    ('sections raw', F, """    def open(self):
        return self.wrapped.open()

    def other_formats(self):""", """    def open(self):
        return decompress(self.wrapped.open())

    def other_formats(self):"""),
    ('bits', F, "2, 'distributable',\n                  3, 'script'",
     "3, 'distributable',\n                  2, 'script'"),
    ('text', F, """        if self.header.flags.distributable:
            return self.viewtext
""", """        if self.header.flags.compressed:
            return self.viewtext
"""),
    ('text swapped', F, """            return self.viewtext
        else:
            return self.bodytext""", """            return self.bodytext
        else:
            return self.viewtext"""),
    ('viewtext', F, "return self['ViewText']", "return self['BodyText']"),
    ('subclass', 'hwp5/xmlmodel.py',
     'class Hwp5File(binmodel.Hwp5File, XmlEventsMixin):',
     """class Hwp5File(binmodel.Hwp5File, XmlEventsMixin):

    @property
    def text(self):
        return self.bodytext
"""),
]
benign = [
    ('dict', F, """        if name in ('BinData', 'BodyText', 'ViewText'):
            return CompressedStorage
        elif name == 'DocInfo':
            return CompressedStream
        elif name == 'Scripts':
            return CompressedStorage
""", """        return {'BinData': CompressedStorage, 'BodyText': CompressedStorage,
                'ViewText': CompressedStorage, 'Scripts': CompressedStorage,
                'DocInfo': CompressedStream}.get(name)
"""),
    ('layers by list', F, """        if stg.header.flags.distributable:
            stg = Hwp5DistDoc(stg)

        if stg.header.flags.compressed:
            stg = Hwp5Compression(stg)
""", """        flags = stg.header.flags
        for flag, layer in ((flags.distributable, Hwp5DistDoc),
                            (flags.compressed, Hwp5Compression)):
            if flag:
                stg = layer(stg)
"""),
    ('helper', F, """        if stg.header.flags.distributable:
            stg = Hwp5DistDoc(stg)

        if stg.header.flags.compressed:
            stg = Hwp5Compression(stg)

        ItemConversionStorage.__init__(self, stg)
""", """        ItemConversionStorage.__init__(self, self.unwrapped(stg))

    @staticmethod
    def unwrapped(stg):
        if stg.header.flags.distributable:
            stg = Hwp5DistDoc(stg)
        return Hwp5Compression(stg) if stg.header.flags.compressed else stg
"""),
    ('text', F, """        if self.header.flags.distributable:
            return self.viewtext
        else:
            return self.bodytext""", """        name = 'ViewText' if self.header.flags.distributable else 'BodyText'
        return self[name]"""),
    ('inherit', F, """        item = self.wrapped[name]
        if is_stream(item):
            return CompressedStream(item)
        else:
            return item
""", """        item = StorageWrapper.__getitem__(self, name)
        if not is_stream(item):
            return item
        return CompressedStream(item)
"""),
]
