# -*- coding: utf-8 -*-
"""C05 Bytes and text are never mixed."""
import ast

from ..terms import T, Term, is_const, cval, subterms
from ..flow import dominators, facts_at
from ..kinds import (Kinds, BYTES, TEXT, BIN, TXT, OF_FILE, KEEP, SPLIT,
                     parts, receiver, values_of, NONE)
from ..prog import FuncInfo, ClassInfo
from ._util import short, norm_facts, fn_args, call_name
from .C04 import JYTHON

TECHNIQUE = ('interprocedural evaluation of values into bytes, text, binary '
             'and text files; type compatibility of every operation on them')
LEVEL_NOTE = ('values whose origin is not known (results of foreign '
              'libraries, values of declared types) are compatible with '
              'everything; what only Jython executes is left out.')
EXPLANATION = '''Constants, open modes, the standard streams, encode / decode and functions of
the standard library determine whether a value is bytes or text and whether a
file is binary or text. The kinds are followed through variables, parameters,
attributes, fields of dictionaries, results, generators and context managers.
Every write, concatenation, comparison, formatting, method call and library
call has to fit the kinds of its operands; generators and files get one kind;
files are not handed on in the text encoding of the environment; documents
are read from the binary layer of the standard input.'''

# functions of the standard library that only accept bytes: index of argument
NEED_BYTES = {
    'struct.unpack': 1, 'struct.unpack_from': 1, 'zlib.decompress': 0,
    'zlib.compress': 0, 'io.BytesIO': 0, 'binascii.b2a_hex': 0,
    'binascii.hexlify': 0, 'base64.b64encode': 0, 'hashlib.sha1': 0,
    'hashlib.md5': 0, 'hashlib.sha256': 0, 'zlib.crc32': 0,
    'binascii.b2a_base64': 0, 'uno.ByteSequence': 0,
}
NEED_TEXT = {
    'io.StringIO': 0, 'xml.sax.saxutils.escape': 0,
    'xml.sax.saxutils.quoteattr': 0,
}
OPENERS = {'builtins.open', 'io.open', 'os.fdopen', 'codecs.open',
           'subprocess.Popen', 'tempfile.TemporaryFile',
           'tempfile.NamedTemporaryFile'}
ARGS = KEEP - {'join', 'ljust', 'rjust', 'center', 'zfill', 'translate'} | \
    SPLIT | {'startswith', 'endswith', 'find', 'index', 'count', 'rfind'}


def run(ctx):
    ctx.rule('C05.outputs', 'what is written to an output is of its kind',
             6)
    ctx.rule('C05.operands', 'operands of concatenations and comparisons '
             'are of one kind', 10)
    ctx.rule('C05.formats', 'bytes are not formatted into text', 10)
    ctx.rule('C05.methods', 'text is encoded and bytes are decoded; '
             'arguments of their methods are of the same kind', 6)
    ctx.rule('C05.library', 'functions of the library get the kind they '
             'need', 3)
    ctx.rule('C05.streams', 'streams of documents are opened as binary '
             'files', 2)
    ctx.rule('C05.encodings', 'files and pipes are not handed on as text in '
             'the encoding of the environment', 10)
    ctx.rule('C05.uniform', 'what a generator yields and what one file gets '
             'is of one kind', 10)
    ctx.rule('C05.events', 'names and texts of XML events are text', 6)
    a = Analysis(ctx)
    for f in sorted(ctx.graphs, key=lambda f: f.fullname):
        if not jython_only(f):
            a.function(f, ctx.graphs[f])
            a.encodings()
            a.uniform()
    a.streams()
    a.events()


def jython_only(f):
    """code of modules or functions that import Java packages"""
    h = f
    while h is not None:
        if h.cls is not None:
            c = h.cls
            for m in c.members.values():
                for b in m:
                    if b.kind == 'func' and imports_java(b.value.node):
                        return True
        if imports_java(h.node):
            return True
        h = h.parent
    return 'javax' in f.module.name or 'jython' in f.module.name


def imports_java(n):
    for x in ast.walk(n):
        if isinstance(x, ast.Import):
            ns = [a.name for a in x.names]
        elif isinstance(x, ast.ImportFrom) and not x.level:
            ns = [x.module or '']
        else:
            continue
        if any(y.split('.')[0] in JYTHON - {'com'} for y in ns):
            return True
    return False


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        self.k = Kinds(ctx)

    def function(self, f, g):
        self.f = f
        self.g = g
        self.dom = None
        self.done = set()
        for n in g.nodes:
            self.n = n
            self._given = None
            if n.kind == 'call':
                self.output(n)
            if n.kind in ('call', 'new', 'mkgen'):
                self.handed(n)
            for v in values_of(n):
                for s in subterms(v):
                    if s in self.done:
                        continue
                    self.done.add(s)
                    self.term(s)

    # -- kinds at a node
    def given(self):
        """kinds that tests establish at the node"""
        if self._given is None:
            if self.dom is None:
                self.dom = dominators(self.g)
            self._given = {}
            for c, p in norm_facts(facts_at(self.g, self.n.id, self.dom)):
                fn, args = fn_args(c)
                if fn is not T('ext', 'builtins.isinstance') or \
                        len(args) < 2:
                    continue
                self._given.setdefault(args[0], []).append(
                    (self.types(args[1]), p))
        return self._given

    def types(self, t):
        out = set()
        for s in subterms(t):
            if s.op == 'ext':
                nm = s.args[0].rpartition('.')[2]
                if nm in ('bytes', 'bytearray', 'binary_type'):
                    out.add(BYTES)
                elif nm in ('str', 'unicode', 'text_type', 'basestring'):
                    out.add(TEXT)
            elif s.op == 'undef' and s.args[1] in ('unicode', 'basestring'):
                out.add(TEXT)
        return out

    def narrowed(self, t, ks):
        for ts, p in self.given().get(t, ()):
            if not ts:
                return NONE
            ks = frozenset(k for k in ks if (k in ts) == p)
        return ks

    def of(self, t):
        return self.narrowed(t, self.k.of(t, self.f))

    def elem(self, t):
        return self.k.elem(t, self.f)

    def loc(self):
        return self.n.loc

    def where(self, t):
        return '%s: %s' % (self.f.fullname, short(t, 70))

    def judge(self, rule, what, bad, text):
        if bad:
            self.ctx.bad(rule, what, text, self.n.loc)
        else:
            self.ctx.ok(rule, what)

    # -- outputs
    def output(self, n):
        o, m = receiver(n.fn)
        if m in ('write', 'writelines') and n.args:
            k = self.of(o)
            v = self.of(n.args[0]) if m == 'write' else self.elem(n.args[0])
            v = v & {BYTES, TEXT}
            if k & {BIN, TXT} and v:
                self.fits(k, v, n.args[0])
        elif n.fn.op == 'ext' and n.fn.args[0] == 'shutil.copyfileobj' and \
                len(n.args) > 1:
            a = self.of(n.args[0]) & {BIN, TXT}
            b = self.of(n.args[1]) & {BIN, TXT}
            if a and b:
                self.judge('C05.outputs', self.where(n.result or n.fn),
                           a != b, 'copies a %s into a %s' % (
                               ' / '.join(sorted(a)), ' / '.join(sorted(b))))
        elif n.fn.op == 'ext' and n.fn.args[0] == 'builtins.print':
            for k, v in n.get('kw') or ():
                if k == 'file' and BIN in self.of(v):
                    self.judge('C05.outputs', self.where(v), True,
                               'prints to a binary file')
            for a in n.args:
                ks = self.of(a) & {BYTES, TEXT}
                if ks:
                    self.judge('C05.outputs', self.where(a), BYTES in ks,
                               'prints bytes as text')

    def fits(self, k, v, arg):
        want = {OF_FILE[x] for x in k if x in OF_FILE}
        self.judge('C05.outputs', self.where(arg), not v <= want,
                   'writes %s to a %s' % (' / '.join(sorted(v)),
                                          ' / '.join(sorted(k))))

    # -- operations
    def term(self, s):
        if s.op == 'bin' and s.args[0] == '+':
            a, b = (self.of(x) & {BYTES, TEXT} for x in s.args[1:])
            if a and b:
                self.judge('C05.operands', self.where(s), a != b,
                           'concatenates %s and %s' % (names(a), names(b)))
        elif s.op == 'bin' and s.args[0] == '%':
            self.format(s, s.args[1], s.args[2].args if s.args[2].op ==
                        'tuple' else (s.args[2],))
        elif s.op == 'cmp':
            self.compare(s)
        elif s.op in ('res', 'pure'):
            self.call(s)

    def compare(self, s):
        op, x, y = s.args
        if op not in ('==', '!=', 'in', 'not in', '<', '>', '<=', '>='):
            return
        a = self.of(x) & {BYTES, TEXT}
        if op in ('in', 'not in') and y.op in ('tuple', 'list', 'set'):
            b = NONE
            for e in y.args:
                b |= self.of(e)
        else:
            b = self.of(y)
        b = b & {BYTES, TEXT}
        if a and b:
            self.judge('C05.operands', self.where(s), not a & b,
                       'compares %s with %s' % (names(a), names(b)))

    def format(self, s, fmt, xs):
        k = self.of(fmt) & {BYTES, TEXT}
        if not k:
            return
        specs = conversions(fmt)
        for i, x in enumerate(xs):
            v = self.of(x) & {BYTES, TEXT}
            if specs is not None and (i >= len(specs) or
                                      specs[i] in ('r', 'a')):
                continue
            if v:
                self.judge('C05.formats', self.where(s), k != v,
                           'formats %s into %s' % (names(v), names(k)))

    def call(self, s):
        fn, args, kw = parts(s)
        if fn.op == 'ext':
            nm = fn.args[0]
            if nm in NEED_BYTES or nm in NEED_TEXT:
                i = NEED_BYTES.get(nm, NEED_TEXT.get(nm))
                want = BYTES if nm in NEED_BYTES else TEXT
                if i < len(args):
                    v = self.of(args[i]) & {BYTES, TEXT}
                    if v:
                        self.judge('C05.library', self.where(s),
                                   v != {want}, '%s gets %s' % (
                                       nm, names(v)))
            elif nm == 'builtins.str' and len(args) == 1 and not kw:
                v = self.of(args[0]) & {BYTES, TEXT}
                if v:
                    self.judge('C05.formats', self.where(s), BYTES in v,
                               'str() of bytes')
            elif nm == 'builtins.bytes' and len(args) == 1 and not kw:
                v = self.of(args[0]) & {BYTES, TEXT}
                if v:
                    self.judge('C05.library', self.where(s), TEXT in v,
                               'bytes() of text without an encoding')
        o, m = receiver(fn)
        if o is None or fn.op != 'attr':
            return
        k = self.of(o) & {BYTES, TEXT}
        if not k:
            return
        if m == 'encode':
            self.judge('C05.methods', self.where(s), BYTES in k,
                       'encodes bytes')
        elif m == 'decode':
            if not args or self.of(args[0]) == {TEXT}:
                self.judge('C05.methods', self.where(s), TEXT in k,
                           'decodes text')
        elif m == 'join':
            e = self.elem(args[0]) & {BYTES, TEXT} if args else NONE
            if e:
                self.judge('C05.operands', self.where(s), e != k,
                           'joins %s with %s' % (names(e), names(k)))
        elif m == 'format' and k == {TEXT}:
            for x in list(args) + [v for _, v in kw]:
                v = self.of(x) & {BYTES, TEXT}
                if v and not repr_only(o):
                    self.judge('C05.formats', self.where(s), BYTES in v,
                               'formats bytes into text')
        elif m in ARGS:
            for x in args:
                v = self.of(x) & {BYTES, TEXT}
                if v:
                    self.judge('C05.methods', self.where(s), v != k,
                               '%s() of %s gets %s' % (m, names(k),
                                                       names(v)))

    # -- streams that are handed on
    def handed(self, n):
        """inputs of readers of documents, and what opens them"""
        own = n.kind == 'new' and isinstance(n.get('cls'), ClassInfo) or \
            n.kind in ('call', 'mkgen') and isinstance(n.get('target'),
                                                       FuncInfo)
        vals = list(n.args) + [v for _, v in n.get('kw') or ()]
        for a in vals if own else ():
            if a.op == 'func':
                k = NONE
                for v, h, e in self.k.returned(a.args[0], (), (), None,
                                               None):
                    k |= self.k.of(v, h, e)
            elif a in (T('ext', 'sys.stdin'), T('ext', 'sys.stdin.buffer')):
                k = self.k.of(a, self.f)
            else:
                continue
            k = k & {BIN, TXT}
            if k:
                self.judge('C05.streams', self.where(a), TXT in k,
                           'documents are read through a text layer')
        if n.kind == 'call':
            o, m = receiver(n.fn)
            if m in ('read', 'readline', 'readlines') and o.op == 'ext' and \
                    o.args[0].startswith('sys.stdin'):
                self.judge('C05.streams', self.where(n.fn),
                           o is T('ext', 'sys.stdin'),
                           'documents are read through a text layer')

    # -- files that are opened
    def encodings(self):
        used = None
        for n in self.g.nodes:
            if n.kind != 'call' or n.fn.op != 'ext' or n.result is None:
                continue
            nm = n.fn.args[0]
            if nm not in OPENERS:
                continue
            if used is None:
                used = self.used()
            if nm == 'subprocess.Popen':
                k = self.k.of(T('attr', n.result, 'stdout'), self.f)
            else:
                k = self.k.of(n.result, self.f)
            kw = dict(n.get('kw') or ())
            explicit = 'encoding' in kw or None in kw or any(
                a.op == 'star' for a in n.args) or nm == 'codecs.open'
            self.n = n
            self.judge('C05.encodings', self.where(n.result),
                       k == {TXT} and not explicit and
                       n.result in used, 'text in the encoding of the '
                       'environment is passed on')

    def used(self):
        """values that are written to, passed on or given back"""
        out = set()
        for n in self.g.nodes:
            vals = []
            if n.kind in ('call', 'new', 'mkgen'):
                vals += list(n.get('args') or ())
                vals += [v for _, v in n.get('kw') or ()]
                if n.kind == 'call':
                    o, m = receiver(n.fn)
                    if m in ('write', 'writelines', 'communicate'):
                        vals.append(o)
            elif n.kind in ('yield', 'exit-return') and \
                    n.get('value') is not None:
                vals.append(n.value)
            for v in vals:
                out |= set(subterms(v))
        return out

    def uniform(self):
        ks = {}
        for n in self.g.nodes:
            self.n = n
            self._given = None
            if n.kind == 'yield' and n.get('value') is not None:
                k = self.of(n.value) & {BYTES, TEXT}
                if k:
                    ks.setdefault(('yielded',), []).append((k, n))
            elif n.kind == 'call':
                o, m = receiver(n.fn)
                if m == 'write' and n.args:
                    k = self.of(n.args[0]) & {BYTES, TEXT}
                    if k:
                        ks.setdefault(('written to', o), []).append((k, n))
        for w, xs in ks.items():
            if len(xs) < 2:
                continue
            self.n = xs[-1][1]
            self.judge('C05.uniform', '%s: %s' % (
                self.f.fullname, ' '.join(short(x, 50) if isinstance(
                    x, Term) else x for x in w)),
                len({k for k, n in xs}) > 1 and
                not frozenset.intersection(*[k for k, n in xs]),
                '%s, at line %s' % ('; '.join(
                    '%s in line %s' % (names(k), n.loc.rpartition(':')[2])
                    for k, n in xs), self.n.loc.rpartition(':')[2]))

    # -- protocols
    def streams(self):
        """open() of streams of documents gives binary files"""
        ctx = self.ctx
        for h in self.k.methods().get('open', ()):
            if jython_only(h):
                continue
            k = NONE
            for v, x, e in self.k.returned(h, (), (), None, None):
                k |= self.k.of(v, x, e)
            k &= {BIN, TXT}
            if k:
                ctx.check(k == {BIN}, 'C05.streams', h.fullname,
                          'gives a text file', ctx.graphs[h].nodes[0].loc)
        for c in ctx.prog.classes:
            k = self.k.reader(c)
            if not k:
                continue
            # what read() returns at different places is of one kind
            m = ctx.prog.method(c, 'read')
            ctx.check(len(k) == 1, 'C05.streams', m.fullname,
                      'returns bytes or text', ctx.graphs[m].nodes[0].loc)

    def events(self):
        """(Text, x), (STARTEVENT, (name, attributes)), (ENDEVENT, name)"""
        ctx = self.ctx
        for f, g in ctx.graphs.items():
            self.f, self.g, self.dom = f, g, None
            for n in g.nodes:
                self.n, self._given = n, None
                if n.kind not in ('yield', 'exit-return') or \
                        n.get('value') is None:
                    continue
                for t in subterms(n.value):
                    if t.op != 'tuple' or len(t.args) != 2:
                        continue
                    nm = marker(t.args[0])
                    if nm is None:
                        continue
                    x = t.args[1]
                    vals = [x]
                    if nm == 'STARTEVENT' and x.op == 'tuple' and x.args:
                        vals = [x.args[0]]
                        if len(x.args) > 1 and x.args[1].op == 'dict':
                            for kv in x.args[1].args:
                                if isinstance(kv, tuple):
                                    vals += list(kv)
                    for v in vals:
                        k = self.of(v) & {BYTES, TEXT}
                        if k:
                            self.judge('C05.events', self.where(t),
                                       BYTES in k, 'bytes in an event')


def marker(t):
    nm = None
    if t.op in ('gval', 'global'):
        nm = t.args[1]
    elif t.op == 'class':
        nm = t.args[0].name
    elif t.op == 'inst':
        nm = t.args[0].name
    elif t.op == 'ext':
        nm = t.args[0].rpartition('.')[2]
    elif t.op == 'sym':
        nm = t.args[0]
    return nm if nm in ('STARTEVENT', 'ENDEVENT', 'Text') else None


def names(ks):
    return ' / '.join(sorted(ks))


def repr_only(fmt):
    """format strings that take the repr() of everything"""
    v = cval(fmt)
    if not isinstance(v, str):
        return False
    import string
    try:
        fs = [x for x in string.Formatter().parse(v) if x[1] is not None]
    except ValueError:
        return True
    return all(x[3] in ('r', 'a') for x in fs)


def conversions(fmt):
    import re
    v = cval(fmt)
    if isinstance(v, bytes):
        v = v.decode('latin1')
    if not isinstance(v, str):
        return None
    if '%(' in v:
        return []
    out = []
    for m in re.finditer(r'%([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?([%\w])', v):
        if m.group(4) == '%':
            continue
        out += ['d'] * ((m.group(2) == '*') + (m.group(3) == '*'))
        out.append(m.group(4))
    return out


witnesses = [
    ('summary line not encoded', 'hwp5/proc/summaryinfo.py',
     "line = textline.encode('utf-8')", 'line = textline'),
    ('summary newline as text', 'hwp5/proc/summaryinfo.py',
     "output_fp.write(b'\\n')", "output_fp.write('\\n')"),
    ('header text not encoded', 'hwp5/filestructure.py',
     "'{}: {}\\n'.format(k, v).encode('utf-8')", "'{}: {}\\n'.format(k, v)"),
    ('summary joined with a text newline', 'hwp5/filestructure.py',
     "out.write(line + b'\\n')", "out.write(line + '\\n')"),
    ('unpacks into a text file', 'hwp5/storage/__init__.py',
     "io.open(outpath, 'wb')", "io.open(outpath, 'w')"),
    ('temporary files are text', 'hwp5/utils.py',
     "'w+' if text else 'wb+'", "'w+'"),
    ('manifest is text', 'hwp5/hwp5odt.py', "f.write(b\'\'\'<?xml",
     "f.write(\'\'\'<?xml"),
    ('ciphertext into a text file', 'hwp5/plat/__init__.py',
     "os.fdopen(fd, 'wb')", "os.fdopen(fd, 'w')"),
    ('cat to the text output', 'hwp5/proc/cat.py',
     "output_fp = sys.stdout.buffer", "output_fp = sys.stdout"),
    ('header to the text output', 'hwp5/proc/header.py',
     "output_fp = sys.stdout.buffer", "output_fp = sys.stdout"),
    ('rawunz reads the text input', 'hwp5/proc/rawunz.py',
     "sys.stdin.buffer", "sys.stdin"),
    ('codec buffer is text', 'hwp5/zlib_raw_codec.py',
     "        self.buffer = b''\n        self.offset = 0",
     "        self.buffer = ''\n        self.offset = 0"),
    ('codec buffer reset as text', 'hwp5/zlib_raw_codec.py',
     "                d = self.buffer\n                self.buffer = b''",
     "                d = self.buffer\n                self.buffer = ''"),
    ('files opened as text', 'hwp5/storage/fs.py',
     "io.open(self.path, 'rb')", "io.open(self.path)"),
    ('base64 not decoded', 'hwp5/xmlmodel.py',
     "                b64 = b64.decode('ascii')\n", ''),
    ('JSON objects not encoded', 'hwp5/utils.py',
     "        chunks = (chunk.encode('utf-8') for chunk in chunks)\n", ''),
    ('declaration not encoded', 'hwp5/xmlmodel.py',
     """.format(
                encoding
            ).encode(
                encoding
            )""", """.format(
                encoding
            )"""),
    ('chunks not encoded', 'hwp5/xmlformat.py',
     'yield textchunk.encode(encoding)', 'yield textchunk'),
    ('flat declaration as text', 'hwp5/xmldump_flat.py',
     "output.write(b'<?xml", "output.write('<?xml"),
    ('preview decoded twice', 'hwp5/filestructure.py',
     "        return data.decode('utf-16le')\n",
     "        return data.decode('utf-16le').decode('utf-8')\n"),
    ('signature is text', 'hwp5/filestructure.py',
     "HWP5_SIGNATURE = b'HWP Document File' + (b'\\x00' * 15)",
     "HWP5_SIGNATURE = 'HWP Document File' + ('\\x00' * 15)"),
    ('generator reader joins text', 'hwp5/utils.py',
     "b''.join", "''.join"),
    ('sequences of UNO from text', 'hwp5/plat/_uno/adapters.py',
     "ByteSequence(b'')", "ByteSequence('')"),
    ('digest as text', 'hwp5/proc/diststream.py',
     "sha1 = b2a_hex(sha1)", "sha1 = '%s' % b2a_hex(sha1)"),
    ('payload read as hex', 'hwp5/recordstream.py',
     "f.write(record['payload'])",
     "f.write(''.join('%02x' % x for x in bytearray(record['payload'])))"),
    ('CSS opened as text', 'hwp5/hwp5html.py',
     "io.open(css_path, 'wb')", "io.open(css_path, 'w')"),
    ('output file for text', 'hwp5/utils.py',
     "open(path, 'wb')", "open(path, 'w')"),
    ('external output as text', 'hwp5/plat/xsltproc.py',
     "p = Popen(cmd, stdout=subprocess.PIPE)",
     "p = Popen(cmd, stdout=subprocess.PIPE, universal_newlines=True)"),
    ('validated output as text', 'hwp5/plat/xmllint.py',
     "os.fdopen(fd, 'wb+')", "os.fdopen(fd, 'w+')"),
    ('record file without binary', 'hwp5/proc/records.py',
     "stdout_binary = sys.stdout.buffer", "stdout_binary = sys.stdout"),
    ('printing storage names as bytes', 'hwp5/storage/__init__.py',
     "path.encode('unicode_escape').decode('utf-8')",
     "path.encode('unicode_escape')"),
    ('summary line joined as text', 'hwp5/proc/summaryinfo.py',
     """            output_fp.write(line)
            output_fp.write(b'\\n')
""", """            output_fp.write(line + '\\n')
"""),
    ('models read text', 'hwp5/proc/models.py',
     "stdin_binary = sys.stdin.buffer", "stdin_binary = sys.stdin"),
    ('raw records to the text output', 'hwp5/proc/records.py',
     "dump_record(stdout_binary, record)", "dump_record(stdout_text, record)"),
    ('record table to the binary output', 'hwp5/proc/records.py',
     "stdout_text.write('{:04d}", "stdout_binary.write('{:04d}"),
    ('JSON to the binary output', 'hwp5/proc/records.py',
     "stream.records_json(**opts).dump(stdout_text)",
     "stream.records_json(**opts).dump(stdout_binary)"),
    ('key shown by str()', 'hwp5/proc/diststream.py',
     "            key = b2a_hex(key)", "            key = str(b2a_hex(key))"),
    ('flat output of the tree as text', 'hwp5/xmldump_flat.py',
     "    for x in bytechunks:\n        output.write(x)",
     "    for x in bytechunks:\n        output.write(x.decode('utf-8'))"),
    ('compressed data buffered as text', 'hwp5/compressed.py',
     "            c += self.decompressobj.flush()",
     "            c = '' + self.decompressobj.flush()"),
    ('source of the package as text', 'hwp5/hwp5odt.py',
     "io.open(src_path, 'rb')", "io.open(src_path)"),
    ('temporary XML as text', 'hwp5/xmlmodel.py',
     "tmpfile = TemporaryFile()", "tmpfile = TemporaryFile('w+')"),
    ('text reader of bytes', 'hwp5/utils.py',
     "            return d + ''.join(self.gen)",
     "            return d + b''.join(self.gen)"),
]
benign = [
    ('summary line and newline at once', 'hwp5/proc/summaryinfo.py',
     """            line = textline.encode('utf-8')
            output_fp.write(line)
            output_fp.write(b'\\n')
""", """            output_fp.write(textline.encode('utf-8') + b'\\n')
"""),
    ('summary text encoded with its newline', 'hwp5/filestructure.py',
     """            line = line.encode('utf-8')
            out.write(line + b'\\n')
""", """            out.write((line + '\\n').encode('utf-8'))
"""),
    ('summary text joined', 'hwp5/filestructure.py',
     """        out = BytesIO()
        for line in self.plaintext_lines:
            line = line.encode('utf-8')
            out.write(line + b'\\n')
        out.seek(0)
        return out
""", """        lines = []
        for line in self.plaintext_lines:
            lines.append(line.encode('utf-8'))
            lines.append(b'\\n')
        return BytesIO(b''.join(lines))
"""),
    ('binary output by a helper', 'hwp5/proc/cat.py',
     """def main(args):
    if PY2:
        output_fp = sys.stdout
    else:
        output_fp = sys.stdout.buffer
""", """def binary_output():
    if PY2:
        return sys.stdout
    return sys.stdout.buffer


def main(args):
    output_fp = binary_output()
"""),
    ('binary output by getattr', 'hwp5/proc/header.py',
     """    if PY2:
        output_fp = sys.stdout
    else:
        output_fp = sys.stdout.buffer
""", """    output_fp = getattr(sys.stdout, 'buffer', sys.stdout)
"""),
    ('cat copies', 'hwp5/proc/cat.py',
     """            while True:
                data = f.read(4096)
                if data:
                    output_fp.write(data)
                else:
                    return
""", """            for data in iter(lambda: f.read(4096), b''):
                output_fp.write(data)
"""),
    ('mode of temporary files by a table', 'hwp5/utils.py',
     "    mode = 'w+' if text else 'wb+'\n",
     "    mode = {True: 'w+', False: 'wb+'}[bool(text)]\n"),
    ('mode of temporary files by parts', 'hwp5/utils.py',
     "    mode = 'w+' if text else 'wb+'\n",
     "    mode = 'w+'\n    if not text:\n        mode = 'wb+'\n"),
    ('declaration built as bytes', 'hwp5/xmlmodel.py',
     """            yield '<?xml version="1.0" encoding="{}"?>\\n'.format(
                encoding
            ).encode(
                encoding
            )""", """            decl = '<?xml version="1.0" encoding="' + encoding + '"?>\\n'
            yield decl.encode(encoding)"""),
    ('base64 encoded in one expression', 'hwp5/xmlmodel.py',
     """                b64 = base64.b64encode(binary)
                b64 = b64.decode('ascii')
""", """                b64 = str(base64.b64encode(binary), 'ascii')
"""),
    ('chunks encoded by a generator expression', 'hwp5/xmlformat.py',
     """    for textchunk in xmlevents_to_textchunks(xmlevents):
        yield textchunk.encode(encoding)
""", """    return (x.encode(encoding) for x in xmlevents_to_textchunks(xmlevents))
"""),
    ('files read at once', 'hwp5/hwp5odt.py',
     """        with io.open(src_path, 'rb') as f:
            self.insert_stream(f, path, media_type)
""", """        f = io.open(src_path, mode='rb')
        try:
            self.insert_stream(f, path, media_type)
        finally:
            f.close()
"""),
    ('table of records joined', 'hwp5/proc/records.py',
     """            stdout_text.write('{:04d} {} {}\\n'.format(
                record['seqno'],
                '  ' * record['level'],
                record['tagname'],
            ))
""", """            line = '%04d %s %s' % (record['seqno'], '  ' * record['level'],
                                   record['tagname'])
            stdout_text.write(line + '\\n')
"""),
    ('table of records printed', 'hwp5/proc/records.py',
     """            stdout_text.write('{:04d} {} {}\\n'.format(
                record['seqno'],
                '  ' * record['level'],
                record['tagname'],
            ))
""", """            print('{:04d} {} {}'.format(record['seqno'],
                                        '  ' * record['level'],
                                        record['tagname']),
                  file=stdout_text)
"""),
    ('reader with a list of chunks', 'hwp5/utils.py',
     """            d, self.buffer = self.buffer, b''
            return d + b''.join(self.gen)
""", """            chunks = [self.buffer]
            self.buffer = b''
            chunks.extend(self.gen)
            return b''.join(chunks)
"""),
    ('hex digest kept as text until written', 'hwp5/proc/diststream.py',
     "            sha1 = b2a_hex(sha1)\n        output_fp.write(sha1)",
     "            sha1 = b2a_hex(sha1).decode('ascii').encode('ascii')\n"
     "        output_fp.write(sha1)"),
    ('version file with an encoding', 'hwp5/__init__.py',
     "'VERSION.txt'))", "'VERSION.txt'), 'r', encoding='ascii')"),
]
