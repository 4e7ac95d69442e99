# -*- coding: utf-8 -*-
"""S01 only valid HWP v5 containers are opened as documents."""
from ..terms import T, Term, is_const, cval, const, subterms, alternatives
from ..cases import walk
from ..prog import ClassInfo
from ._util import short, fn_args, refine, names_of_types, lookup, returns

TECHNIQUE = ('case analysis of the inlined constructors of every document '
             'class: with the signature comparison answered "no", no '
             'normal exit may be reachable and every raise must be the '
             'invalid-file error; exception-edge audit of the operations '
             'in front of the check')
LEVEL_NOTE = ('The comparison is accepted in any form that compares the whole '
              'signature member with the 32-byte constant. That the member '
              'is read as the first 32 bytes is decided by R04.')
EXPLANATION = '''For the base class and every subclass of the document class
the constructor is inlined. The condition comparing the signature member of
the FileHeader stream with the HWP v5 signature is answered with "different":
then no path may complete the construction (or the test functions may not
answer True), and what is raised must be InvalidHwp5FileError. The look-up of
the stream, its reading and the opening of the container are the operations
that can fail before the check; each must be covered by a handler for the
failure which ends in the invalid-file error. No other item of the container
may be looked up before the check has passed.'''

SIGNATURE = b'HWP Document File' + b'\0' * 15
FS = 'hwp5.filestructure'
INLINE = ('hwp5.filestructure', 'hwp5.utils', 'hwp5.storage',
          'hwp5.recordstream', 'hwp5.binmodel', 'hwp5.xmlmodel')


def inline(f, w):
    return f.module.name in INLINE


def document_classes(ctx):
    base = ctx.need_class(FS, 'Hwp5FileBase')
    doc = ctx.need_class(FS, 'Hwp5File')
    out = [base, doc]
    for m in ctx.prog.modules.values():
        for bs in m.bindings.values():
            for b in bs:
                if b.kind == 'class' and isinstance(b.value, ClassInfo) and \
                        b.value not in out and any(
                            ctx.prog.is_subclass(b.value, x)
                            for x in (base, doc)):
                    out.append(b.value)
    return sorted(out, key=lambda c: (c.module.name, c.name))


def run(ctx):
    ctx.rule('S01.signature', 'no document is constructed, and none is '
             'called valid, unless its signature equals the constant', 3)
    ctx.rule('S01.error', 'refusals are the invalid-file error', 3)
    ctx.rule('S01.first', 'nothing else of the container is looked at before '
             'the check', 2)
    ctx.rule('S01.ole', 'containers that the OLE reader rejects are reported '
             'as invalid', 1)
    for c in document_classes(ctx):
        text = 'from %s import %s\ndef q(stg):\n    return %s(stg)\n' % (
            c.module.name, c.name, c.name)
        document(ctx, '%s.%s' % (c.module.name, c.name),
                 refine(ctx.query(text, inline=inline)), False)
    for name in ('storage_is_hwp5file', 'is_hwp5file'):
        m = ctx.prog.modules[FS]
        if name in m.bindings:
            document(ctx, name, refine(ctx.query(
                'from %s import %s\ndef q(stg):\n    if %s(stg):\n'
                '        return 1\n    raise LookupError(stg)\n' % (
                    FS, name, name), inline=inline)), True)
    ole_rule(ctx)


def container(t):
    """the term stands for the container"""
    if t.op in ('ite', 'phi'):
        return any(container(a) for a in alternatives(t))
    return t is T('sym', 'stg') or t.op == 'inst' and \
        isinstance(t.args[0], ClassInfo) and t.args[0].name == 'OleStorage'


def header_of(t):
    """t is a look-up of the FileHeader in the container"""
    b = lookup(t, 'FileHeader')
    return b is not None and container(b)


def header_data(t):
    """t was read from the opened FileHeader stream"""
    fn, a = fn_args(t)
    if fn is None:
        return False
    return any(x.op in ('res', 'pure') and fn_args(x)[0].op == 'attr' and
               fn_args(x)[0].args[1] == 'open' and
               header_of(fn_args(x)[0].args[0])
               for y in a if isinstance(y, Term) for x in subterms(y))


def signature_member(t):
    b = lookup(t, 'signature')
    if b is not None and header_data(b):
        return True
    # the first 32 bytes of the raw stream
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'read' and a and \
            cval(a[0]) == len(SIGNATURE):
        return header_opened(fn.args[0])
    if t.op == 'sub' and t.args[1].op == 'slice' and \
            cval(t.args[1].args[1]) == len(SIGNATURE):
        fn, a = fn_args(t.args[0])
        return fn is not None and fn.op == 'attr' and \
            fn.args[1] == 'read' and header_opened(fn.args[0])
    return False


def header_opened(t):
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'attr' and fn.args[1] == 'open' and \
        header_of(fn.args[0])


def decides(c):
    """+1/-1: c is (in)equality of the signature member and the constant"""
    if c.op == 'not':
        d = decides(c.args[0])
        return -d if d else None
    if c.op == 'cmp' and c.args[0] in ('==', '!='):
        op, a, b = c.args
        for x, y in ((a, b), (b, a)):
            if signature_member(x) and is_const(y) and cval(y) == SIGNATURE:
                return 1 if op == '==' else -1
    return None


def different(c):
    d = decides(c)
    return None if d is None else d < 0


def document(ctx, name, g, answers):
    conds = [n for n in g.nodes if n.kind == 'branch' and
             decides(n.cond) is not None]
    loose = [n for n in g.nodes if n.kind == 'branch' and
             any(signature_member(x) for x in subterms(n.cond))]
    seen = walk(g, [g.entry], different, skip=('genexit',))
    bad = None
    for r in returns(g):
        if r.id in seen:
            for v in alternatives(r.value):
                v = settle(v)
                if answers and (is_const(v) and not cval(v)):
                    continue
                bad = r
    ctx.check(bad is None, 'S01.signature', name,
              'a container is accepted whose signature was not found equal '
              'to the HWP v5 signature%s' % (
                  ' (compared: %s)' % short(loose[0].cond)
                  if loose and not conds else ''),
              ctx.where(loose[0]) if loose else None)
    # refusals
    nodes = [g.nodes[x] for x in seen]
    if not answers:
        for n in nodes:
            if n.kind != 'raise':
                continue
            if n.get('exc') is not None and n.exc.op == 'exc':
                continue        # passed on as it was
            c = exc_name(n.get('exc'))
            ctx.check(c == 'InvalidHwp5FileError' or caught(g, n),
                      'S01.error', '%s: %s' % (name, c),
                      'the container is refused by %s' % c, ctx.where(n))
    for n in g.nodes:
        why = None
        if n.kind == 'getitem' and cval(n.key) == 'FileHeader' and \
                container(n.obj):
            why = (('KeyError', 'LookupError'), 'a container without file '
                   'header')
        elif n.kind == 'call' and n.get('target') is not None and \
                n.target.name == 'read_type' and \
                n.get('result') is not None and header_data(n.result):
            why = (('ParseError',), 'a file header that is cut off')
        elif n.kind == 'new' and n.cls.name == 'OleStorage':
            why = (('InvalidOleStorageError',), 'a file that is no OLE '
                   'container')
        if why is None or not safe_first(g, n, seen):
            continue
        ok = handled(g, n, why[0])
        ctx.check(ok, 'S01.error', '%s: %s' % (name, why[1]),
                  '%s is not reported as invalid file' % why[1],
                  ctx.where(n))
    # nothing before
    for n in nodes:
        other = None
        if n.kind == 'getitem' and container(n.obj) and \
                cval(n.key) != 'FileHeader':
            other = short(n.key)
        elif n.kind in ('loop', 'next') and n.get('iter') is not None and \
                container(n.iter):
            other = 'the names'
        ctx.check(other is None, 'S01.first', '%s: %s' % (
            name, other or n.id), '%s is looked at before the signature' %
            other, ctx.where(n))


def safe_first(g, n, seen):
    return n.id in seen


def handled(g, n, types):
    """an exception of one of the types raised by n meets a handler"""
    st, seen = [y for y, l in n.succ if l == 'exc'], set()
    if not st:
        return False
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        m = g.nodes[x]
        if m.kind == 'handler':
            if not m.types or set(names_of_types(m.types)) & set(
                    types + ('Exception', 'BaseException')):
                again = reraised(g, m)
                if not again:
                    return True
                for r in again:
                    st.extend(y for y, l in r.succ)
        elif m.kind == 'exit-raise':
            continue
        else:
            st.extend(y for y, l in m.succ)
    return False


def reraised(g, h):
    """the raise statements that pass on what the handler caught"""
    st, seen, out = [h.id], set(), []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        m = g.nodes[x]
        if m.kind == 'raise':
            if m.get('exc') is None or m.exc is h.get('exc'):
                out.append(m)
            continue
        st.extend(y for y, l in m.succ if l not in ('exc', 'genexit'))
    return out


def settle(v):
    """v with the signature comparison answered no"""
    if v.op == 'ite':
        d = different(v.args[0])
        if d is not None:
            return settle(v.args[1] if d else v.args[2])
    d = different(v)
    if d is not None:
        return const(d)
    if v.op in ('and', 'bool') or v.op == 'pure' and v.args[0] is \
            T('ext', 'builtins.bool'):
        for a in v.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                if isinstance(x, Term) and different(x) is False:
                    return const(False)
    return v


def caught(g, n):
    return any(l == 'exc' and g.nodes[y].kind == 'handler'
               for y, l in n.succ)


def exc_name(t):
    if t is None:
        return 'the same exception again'
    if t.op in ('inst', 'class') and isinstance(t.args[0], ClassInfo):
        return t.args[0].name
    return short(t)


def ole_rule(ctx):
    R = 'S01.ole'
    n = 0
    for m in sorted(ctx.prog.modules.values(), key=lambda m: m.name):
        if not m.name.startswith('hwp5.plat'):
            continue
        for b in m.bindings.get('OleStorage', ()):
            if b.kind != 'class' or not isinstance(b.value, ClassInfo):
                continue
            cls = b.value
            g = refine(ctx.query(
                'from %s import OleStorage\ndef q(olefile):\n'
                '    return OleStorage(olefile)\n' % m.name,
                inline=lambda f, w: f.module is m))
            raises = [x for x in g.nodes if x.kind == 'raise' and
                      exc_name(x.get('exc')) == 'InvalidOleStorageError']
            ctx.check(bool(raises), R, m.name, 'never raises '
                      'InvalidOleStorageError')
            for x in g.nodes:
                if not opener(x):
                    continue
                n += 1
                hs = [g.nodes[y] for y, l in x.succ
                      if l == 'exc' and g.nodes[y].kind == 'handler']
                ok = any(not h.types or set(names_of_types(h.types)) & {
                    'IOError', 'OSError', 'EnvironmentError', 'Exception',
                    'BaseException', 'IOException'} or any(
                        'IOException' in y for y in names_of_types(h.types))
                    for h in hs)
                if ok:
                    reach = walk(g, [h.id for h in hs], lambda c: None)
                    ok = not any(g.nodes[y].kind == 'exit-return'
                                 for y in reach) and any(
                        g.nodes[y] in raises for y in reach)
                ctx.check(ok, R, '%s: %s' % (m.name, short(x.fn)),
                          'a failure of opening the container is not '
                          'reported as InvalidOleStorageError', ctx.where(x))


OPENERS = ('OleFileIO', 'POIFSFileSystem', 'InfileMSOle')


def opener(n):
    if n.kind != 'call':
        return False
    s = short(n.fn)
    return any(s.split('.')[-1] == o or s.endswith(o + '.new')
               for o in OPENERS) or any(
        x.op == 'ext' and isinstance(x.args[0], str) and
        x.args[0].split('.')[-1] in OPENERS[:2] for x in alternatives(n.fn))


F = 'hwp5/filestructure.py'
witnesses = [
    ('no check', F, '''            raise InvalidHwp5FileError(errormsg)
''', '''            logger.warning(errormsg)
'''),
    ('prefix only', F, 'if signature == HWP5_SIGNATURE:',
     'if signature.startswith(HWP5_SIGNATURE.rstrip(b"\\0")):'),
    ('other constant', F, "(b'\\x00' * 15)", "(b'\\x00' * 14 + b'\\x01')"),
    ('only files', F, 'valid = storage_is_hwp5file(stg)',
     'valid = opened is None or storage_is_hwp5file(stg)'),
    ('key error', F, '''    except KeyError:
        logger.info('stg has no FileHeader')
        return False
''', '''    except IOError:
        logger.info('stg has no FileHeader')
        return False
'''),
    ('missing is fine', F, '''        logger.info('stg has no FileHeader')
        return False
''', '''        logger.info('stg has no FileHeader')
        return True
'''),
    ('parse error', F, '''    except ParseError as e:
        logger.info('FileHeader is invalid: %s', e)
        return False
''', '''    except IOError as e:
        logger.info('FileHeader is invalid: %s', e)
        return False
'''),
    ('other error', F, 'raise InvalidHwp5FileError(errormsg)',
     'raise ValueError(errormsg)'),
    ('ole error', F, '''            except InvalidOleStorageError:
                raise InvalidHwp5FileError('Not an OLE2 Compound Binary File.')
''', '''            except InvalidOleStorageError:
                raise
'''),
    ('early look', F, '''        try:
            valid = storage_is''', '''        logger.debug('%r', list(stg['BodyText']))
        try:
            valid = storage_is'''),
    ('base skipped', F, '''        base = Hwp5FileBase(stg)
''', '''        base = stg
        if isinstance(stg, basestring):
            base = Hwp5FileBase(stg)
'''),
    ('subclass', 'hwp5/xmlmodel.py',
     'class Hwp5File(binmodel.Hwp5File, XmlEventsMixin):',
     '''class Hwp5File(binmodel.Hwp5File, XmlEventsMixin):

    def __init__(self, stg):
        self.wrapped = stg
'''),
    ('backend', 'hwp5/plat/olefileio.py',
     'except (IOError, ValueError) as e:', 'except ValueError as e:'),
    ('backend 2', 'hwp5/plat/olefileio.py', '''                errormsg = 'Not a valid OLE2 Compound Binary File: %s' % e
                raise InvalidOleStorageError(errormsg)
''', '''                olefile = None
'''),
]
benign = [
    ('inverted', F, '''    if signature == HWP5_SIGNATURE:
        return True
    else:
        logger.info('fileheader.signature = %r', signature)
        return False
''', '''    if HWP5_SIGNATURE != signature:
        logger.info('fileheader.signature = %r', signature)
        return False
    return True
'''),
    ('direct', F, '''    if signature == HWP5_SIGNATURE:
        return True
    else:
        logger.info('fileheader.signature = %r', signature)
        return False
''', '''    valid = signature == HWP5_SIGNATURE
    if not valid:
        logger.info('fileheader.signature = %r', signature)
    return valid
'''),
    ('helper', F, '''        if not storage_is_hwp5file(stg):
            errormsg = 'Not an HWP Document format v5 storage.'
            raise InvalidHwp5FileError(errormsg)

        ItemConversionStorage.__init__(self, stg)
''', '''        self._check(stg)
        ItemConversionStorage.__init__(self, stg)

    @staticmethod
    def _check(stg):
        if storage_is_hwp5file(stg):
            return
        errormsg = 'Not an HWP Document format v5 storage.'
        raise InvalidHwp5FileError(errormsg)
'''),
]
