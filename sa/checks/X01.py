# -*- coding: utf-8 -*-
"""X01 XML output is well-formed for every document content."""
import re

from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..iters import iterations, nodes_on, feasible, natural
from ..prog import ClassInfo
from ..xsl import parse, stylesheets
from ._util import short, fn_args

TECHNIQUE = ('evaluation of the escaping of every piece of output along all '
             'paths of the serializer, character by character, against the '
             'productions of XML 1.0; attribute names of all types of '
             'structures compared with each other; lint of the style sheets')
LEVEL_NOTE = ('escape(), quoteattr(), replace(), translate() and sub() are '
              'evaluated as their documentation defines them. Pieces that '
              'are treated in other ways are not decided. Processing of '
              'style sheets by the XSLT processor yields well-formed '
              'documents unless they turn off escaping.')
EXPLANATION = '''For each event that the serializer takes, every path of the loop
body is followed and the pieces written on it are put together, with contents
made of markup characters, characters that XML 1.0 does not allow, line breaks
and surrogates. The result has to be a start tag, an end tag or text that
decodes to the contents without the characters that are not allowed. The
encoding that is declared is compared with the encoding that is used.'''

ILLEGAL = ['\x00', '\x01', '\x08', '\x0b', '\x0c', '\x0e', '\x1f', '\ufffe',
           '\uffff', '\ud800', '\udfff']
SAMPLES = ['x', '<', '>', '&', '"', "'", '"\'', '&lt;', ']]>', '가',
           '\U0001f600', 'a b', '\x85', '\x7f', ';', '#', '-->', '']
BREAKS = ['\n', '\t', '\r']
WITHIN = ['a%sb' % c for c in ILLEGAL] + ['a<b', 'a"b', 'a&b', 'a]]>b',
                                        '\x01' * 40]
NAME = re.compile(r'[A-Za-z_][-A-Za-z0-9_.]*$')
STAGS = ('saxutils', 'html')


def run(ctx):
    ctx.rule('X01.markup', 'each event becomes one piece of markup', 3)
    ctx.rule('X01.escape', 'contents are escaped and read back as they were',
             2)
    ctx.rule('X01.chars', 'characters that XML does not allow are left out',
             2)
    ctx.rule('X01.encoding', 'the encoding used is the one declared', 2)
    ctx.rule('X01.names', 'names of elements and attributes are valid', 40)
    ctx.rule('X01.unique', 'attributes of an element have different names',
             40)
    ctx.rule('X01.sheets', 'style sheets do not turn off escaping', 4)
    ctx.rule('X01.sites', 'no markup is put together without escaping', 0)
    ser = serializer(ctx)
    declared(ctx)
    fields(ctx)
    sheets(ctx)
    sites(ctx, ser or ())


# evaluation -----------------------------------------------------------------
class Unknown(Exception):
    pass


def strip(t):
    """without conversions that change no characters"""
    while True:
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'encode', 'decode') and not is_const(fn.args[0]):
            t = fn.args[0]
            continue
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'encode':
            t = fn.args[0]
            continue
        if fn is not None and fn.op in ('ext', 'builtin', 'class') and \
                len(args) == 1 and fn.args[0] in ('str', 'unicode', 'bytes',
                                                  'iter'):
            t = args[0]
            continue
        if t.op == 'gval':
            t = t.args[-1]
            continue
        return t


def table(t):
    """constant dictionary"""
    t = strip(t)
    if t.op == 'dict':
        out = {}
        for k, v in t.args:
            if not (is_const(k) and is_const(v)):
                raise Unknown
            out[cval(k)] = cval(v)
        return out
    if is_const(t) and isinstance(cval(t), dict):
        return cval(t)
    raise Unknown


def pattern(t):
    t = strip(t)
    if is_const(t):
        return re.compile(cval(t))
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'ext' and fn.args[0] == 're.compile' and \
            args and is_const(strip(args[0])) and len(args) == 1:
        return re.compile(cval(strip(args[0])))
    raise Unknown


def kwargs(t):
    if t.op == 'res':
        return dict(t.args[3] or ())
    if t.op == 'pure':
        return dict(t.args[2] or ())
    return {}


def esc(s, ents):
    s = s.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;')
    for k, v in ents.items():
        s = s.replace(k, v)
    return s


def quote(s, ents):
    s = esc(s, dict(ents, **{'\n': '&#10;', '\r': '&#13;', '\t': '&#9;'}))
    if '"' in s:
        if "'" in s:
            return '"%s"' % s.replace('"', '&quot;')
        return "'%s'" % s
    return '"%s"' % s


def evaluate(t, leaf):
    """text made of the term; leaf gives the texts of the contents"""
    t = strip(t)
    v = leaf(t)
    if v is not None:
        return v
    if is_const(t) and isinstance(cval(t), (str, bytes)):
        c = cval(t)
        return c if isinstance(c, str) else c.decode('latin-1')
    if t.op == 'bin' and t.args[0] == '+':
        return evaluate(t.args[1], leaf) + evaluate(t.args[2], leaf)
    if t.op == 'bin' and t.args[0] == '%' and is_const(t.args[1]):
        a = t.args[2]
        xs = a.args if a.op == 'tuple' else (a,)
        if a.op == 'tuple' and len(xs) == 1 and isinstance(xs[0], tuple):
            xs = xs[0]
        return cval(t.args[1]) % tuple(evaluate(x, leaf) for x in xs)
    if t.op == 'ite':
        return evaluate(t.args[1] if truth(t.args[0], leaf) else t.args[2],
                        leaf)
    if t.op == 'phi':
        raise Unknown
    if t.op == 'sub' and t.args[1].op == 'slice':
        return evaluate(t.args[0], leaf)[slice(*bounds(t.args[1]))]
    if t.op == 'fstr':
        return ''.join(x if isinstance(x, str) else evaluate(x, leaf)
                       for x in t.args)
    fn, args = fn_args(t)
    if fn is None:
        raise Unknown
    kw = kwargs(t)
    if fn.op == 'attr':
        m, o = fn.args[1], fn.args[0]
        if m == 'replace' and len(args) == 2:
            a, b = [strip(x) for x in args]
            if is_const(a) and is_const(b):
                return evaluate(o, leaf).replace(cval(a), cval(b))
        if m == 'sub' and len(args) == 2:
            r = strip(args[0])
            if is_const(r):
                return pattern(o).sub(cval(r), evaluate(args[1], leaf))
        if m == 'translate' and len(args) == 1:
            return evaluate(o, leaf).translate(
                {k if isinstance(k, int) else ord(k): v
                 for k, v in table(args[0]).items()})
        if m == 'format' and is_const(strip(o)):
            return cval(strip(o)).format(
                *[evaluate(x, leaf) for x in args],
                **{k: evaluate(v, leaf) for k, v in kw.items()})
        if m == 'join' and is_const(strip(o)) and len(args) == 1:
            a = strip(args[0])
            if a.op in ('list', 'tuple'):
                xs = a.args
                if len(xs) == 1 and isinstance(xs[0], tuple):
                    xs = xs[0]
                return cval(strip(o)).join(evaluate(x, leaf) for x in xs)
            if a.op == 'comp':
                x = a.args[1]
                x = x[0] if isinstance(x, tuple) else x
                return evaluate(x, leaf)
        raise Unknown
    if fn.op == 'ext':
        nm = fn.args[0]
        if nm == 'xml.sax.saxutils.escape':
            e = args[1] if len(args) > 1 else kw.get('entities')
            return esc(evaluate(args[0], leaf), table(e) if e else {})
        if nm == 'xml.sax.saxutils.quoteattr':
            e = args[1] if len(args) > 1 else kw.get('entities')
            return quote(evaluate(args[0], leaf), table(e) if e else {})
        if nm in ('html.escape', 'cgi.escape'):
            q = args[1] if len(args) > 1 else kw.get('quote')
            q = cval(q) if q is not None else nm == 'html.escape'
            s = esc(evaluate(args[0], leaf), {})
            return s.replace('"', '&quot;').replace("'", '&#x27;') if q else s
        if nm == 're.sub' and len(args) == 3 and is_const(strip(args[1])):
            return pattern(args[0]).sub(cval(strip(args[1])),
                                        evaluate(args[2], leaf))
    raise Unknown


def bounds(t):
    out = []
    for a in t.args:
        a = strip(a) if isinstance(a, Term) else a
        if isinstance(a, Term):
            if not is_const(a):
                raise Unknown
            a = cval(a)
        if a is not None and not isinstance(a, int):
            raise Unknown
        out.append(a)
    return out


def plain(t, leaf):
    """constant or text made of the contents"""
    t = strip(t)
    if is_const(t):
        return cval(t)
    if t.op in ('tuple', 'list', 'set'):
        xs = t.args
        if len(xs) == 1 and isinstance(xs[0], tuple):
            xs = xs[0]
        return tuple(plain(x, leaf) for x in xs)
    return evaluate(t, leaf)


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b,
       'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b,
       '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
       'is': lambda a, b: a is b, 'is not': lambda a, b: a is not b}


def truth(c, leaf):
    """does the condition hold for the contents"""
    c = strip(c)
    if c.op == 'not':
        return not truth(c.args[0], leaf)
    if c.op in ('and', 'or'):
        xs = c.args
        if len(xs) == 1 and isinstance(xs[0], tuple):
            xs = xs[0]
        return (all if c.op == 'and' else any)(truth(x, leaf) for x in xs)
    if c.op == 'cmp' and c.args[0] in OPS:
        a, b = plain(c.args[1], leaf), plain(c.args[2], leaf)
        try:
            return OPS[c.args[0]](a, b)
        except TypeError:
            raise Unknown
    if is_const(c):
        return bool(cval(c))
    fn, args = fn_args(c)
    if fn is not None and fn.op == 'attr':
        m, o = fn.args[1], fn.args[0]
        if m in ('search', 'match', 'fullmatch') and len(args) == 1:
            return bool(getattr(pattern(o), m)(evaluate(args[0], leaf)))
        if m in ('isalnum', 'isalpha', 'isdigit', 'isspace', 'isprintable',
                 'isascii') and not args:
            return getattr(evaluate(o, leaf), m)()
        if m in ('startswith', 'endswith') and len(args) == 1:
            return getattr(evaluate(o, leaf), m)(plain(args[0], leaf))
    if fn is not None and fn.op == 'ext' and fn.args[0] in (
            're.search', 're.match', 're.fullmatch') and len(args) == 2:
        return bool(getattr(pattern(args[0]), fn.args[0][3:])(
            evaluate(args[1], leaf)))
    if fn is None and c.op in ('res', 'pure'):
        raise Unknown
    return bool(evaluate(c, leaf))


def is_sink(n):
    return n.kind == 'call' and n.get('fn') is not None and \
        n.fn.op == 'undef' and n.fn.args[-1] == 'sink'


# serializer -----------------------------------------------------------------
def event_loop(g, events):
    for n in g.nodes:
        if n.kind == 'loop' and any(
                t is events for t in subterms(n.iter)) and \
                not any(t.op == 'elem' for t in subterms(n.iter)):
            return n
    return None


def part(t, i):
    """is t part i of something; the something"""
    if t.op == 'item' and t.args[1] == i:
        return t.args[0]
    if t.op == 'sub' and is_const(t.args[1]) and cval(t.args[1]) == i and \
            not isinstance(cval(t.args[1]), bool):
        return t.args[0]
    return None


class Leaves:
    """the parts of an event that a serializer writes"""

    def __init__(self, ev):
        self.ev = ev            # elem of the loop over the events

    def item(self, t):
        b = part(t, 1)
        return b is not None and b is self.ev

    def name(self, t):
        b = part(t, 0)
        return b is not None and self.item(b)

    def attrs(self, t):
        b = part(t, 1)
        return b is not None and self.item(b)

    def under(self, t):
        """collection made of the attributes: items / keys"""
        for _ in range(8):
            t = strip(t)
            if self.attrs(t):
                return 'keys'
            fn, args = fn_args(t)
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] in ('items', 'iteritems') and \
                    self.attrs(strip(fn.args[0])):
                return 'items'
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] in ('keys', 'iterkeys') and \
                    self.attrs(strip(fn.args[0])):
                return 'keys'
            if fn is not None and fn.op in ('ext', 'builtin') and \
                    fn.args[0] in ('sorted', 'list', 'tuple', 'iter') and \
                    args:
                t = args[0]
                continue
            return None

    def kind(self, t):
        if self.name(t):
            return 'name'
        if self.item(t):
            return 'item'
        b = part(t, 0)
        if b is not None and b.op == 'elem' and \
                self.under(b.args[0]) == 'items':
            return 'attr'
        b = part(t, 1)
        if b is not None and b.op == 'elem' and \
                self.under(b.args[0]) == 'items':
            return 'value'
        if t.op == 'elem' and self.under(t.args[0]) == 'keys':
            return 'attr'
        if t.op == 'sub' and self.attrs(t.args[0]) and \
                self.kind(t.args[1]) == 'attr':
            return 'value'
        return None


ATTR = r'''\s+n\s*=\s*("[^"<]*"|'[^'<]*')'''
START = re.compile(r'<n((?:%s)*)\s*>$' % ATTR, re.S)
EMPTY = re.compile(r'<n((?:%s)*)\s*/>$' % ATTR, re.S)
END = re.compile(r'</n\s*>$')
REF = re.compile(r'&(lt|gt|amp|quot|apos|#\d+|#x[0-9a-fA-F]+);')


def unescape(s, attr):
    """what an XML parser reads, or None"""
    out, i = '', 0
    while i < len(s):
        if s[i] == '&':
            m = REF.match(s, i)
            if not m:
                return None
            r = m.group(1)
            out += {'lt': '<', 'gt': '>', 'amp': '&', 'quot': '"',
                    'apos': "'"}.get(r) or \
                chr(int(r[2:], 16) if r.startswith('#x') else int(r[1:]))
            i = m.end()
            continue
        if s[i] == '<':
            return None
        out += ' ' if attr and s[i] in '\n\t\r' else s[i]
        i += 1
    return out


def legal(s):
    return ''.join(c for c in s if not (
        c in ILLEGAL or c < ' ' and c not in '\t\n\r' or
        '\ud800' <= c <= '\udfff'))


def kinds_on(g, p):
    """the event constant that a path is taken for"""
    out = set()
    for x, l, y in p:
        n = g.nodes[x]
        if n.kind != 'branch':
            continue
        c = n.cond
        if c.op == 'cmp' and c.args[0] in ('is', '=='):
            for a in c.args[1:3]:
                nm = const_name(a)
                if nm and l == 'T':
                    out.add(nm)
    return out


def const_name(a):
    if a.op in ('gval', 'global'):
        return a.args[1]
    if a.op in ('class', 'cval') and hasattr(a.args[0], 'name'):
        return a.args[0].name
    return None


def serializer(ctx):
    events = T('sym', 'events')
    g = ctx.query('from hwp5.xmlformat import xmlevents_to_bytechunks as F\n'
                  'def q(events, enc):\n    for b in F(events, enc):\n'
                  '        sink(b)\n',
                  args={'events': events, 'enc': T('sym', 'enc')})
    fs = {n.target for n in g.nodes if n.kind in ('enter', 'mkgen')}
    h = event_loop(g, events)
    if h is None:
        return fs
    el = None
    for n in g.nodes:
        for v in n.d.values():
            for t in subterms(v) if isinstance(v, Term) else ():
                if t.op == 'elem' and t.args[0] is h.iter:
                    el = t
    if el is None:
        return fs
    lv = Leaves(el)
    back, out = iterations(g, h.id)
    seen = {}
    problems = {}
    undecided = False
    for p in back or ():
        if not feasible(g, p):
            continue
        ks = kinds_on(g, p) & {'STARTEVENT', 'ENDEVENT', 'Text'}
        ws = [n for n in nodes_on(g, p) if is_sink(n)]
        if not ws:
            for k in ks:
                problems.setdefault((k, 'X01.markup'),
                                    ('%s events may be written as nothing'
                                     % k, h))
            continue
        try:
            k = form(lv, ws, ks, problems, conditions(g, p, lv))
        except Unknown:
            undecided = True
            continue
        if k:
            seen.setdefault(k, ws[0])
    if undecided and not problems:
        return fs
    where = ctx.where(h)
    for k in ('STARTEVENT', 'ENDEVENT', 'Text'):
        bad = [v for (e, r), v in problems.items()
               if e == k and r == 'X01.markup']
        if bad:
            ctx.bad('X01.markup', k, bad[0][0], ctx.where(bad[0][1]))
        elif k in seen:
            ctx.ok('X01.markup', k)
        elif back:
            ctx.bad('X01.markup', k, '%s events are not written' % k, where)
    for rule in ('X01.escape', 'X01.chars'):
        for k in ('STARTEVENT', 'Text'):
            bad = problems.get((k, rule))
            if bad:
                ctx.bad(rule, k, bad[0], ctx.where(bad[1]))
            elif k in seen:
                ctx.ok(rule, k)
    return fs


def conditions(g, p, lv):
    """what a path takes for granted about the contents"""
    out = []
    for x, l, y in p:
        n = g.nodes[x]
        if n.kind == 'branch' and l in 'TF' and mentions(n.cond, lv):
            out.append((n.cond, l == 'T'))
    return out


def mentions(t, lv):
    """does the term depend on a text, not on the shape of the event"""
    if isinstance(t, (tuple, list)):
        return any(mentions(x, lv) for x in t)
    if not isinstance(t, Term):
        return False
    if lv.name(t) or lv.attrs(t):
        return False
    k = lv.kind(t)
    if k is not None:
        return k in ('value', 'item')
    return any(mentions(x, lv) for x in t.args)


def form(lv, ws, ks, problems, conds=()):
    """form of what is written on a path: STARTEVENT, ENDEVENT or Text"""
    def leaves(name, attr, value, item):
        def leaf(t):
            k = lv.kind(t)
            if k is None:
                return None
            return {'name': name, 'attr': attr, 'value': value,
                    'item': item}[k]
        return leaf

    def text(*a):
        leaf = leaves(*a)
        return ''.join(evaluate(w.args[0], leaf) for w in ws)

    def taken(*a):
        leaf = leaves(*a)
        return all(truth(c, leaf) == pol for c, pol in conds)

    def problem(k, rule, msg):
        problems.setdefault((k, rule), (msg, ws[-1]))
    used = set()

    def note(t):
        k = lv.kind(t)
        if k:
            used.add(k)
        return None if k is None else 'n'
    for w in ws:
        evaluate(w.args[0], note)
    want = next(iter(ks)) if len(ks) == 1 else None
    if 'name' in used or 'attr' in used or 'value' in used:
        k = 'STARTEVENT'
        s = text('n', 'n', 'x', '?')
        if not (START.match(s) or EMPTY.match(s)):
            problem(k, 'X01.markup', 'an element is written as %r' % s)
            return k
        if 'name' not in used:
            problem(k, 'X01.markup', 'an element is written without its name')
        if 'value' in used:
            for v in SAMPLES + BREAKS + ILLEGAL + WITHIN:
                if not taken('n', 'n', v, '?'):
                    continue
                s = text('n', 'n', v, '?')
                vals = s[s.index('=') + 1:s.rindex('>')].strip() \
                    if '=' in s and '>' in s else ''
                bad = bad_chars(s)
                if bad:
                    problem(k, 'X01.chars', 'the character %a in the value '
                            'of an attribute is written, which XML does not '
                            'allow' % bad)
                    continue
                if len(vals) < 2 or vals[0] not in '"\'' or \
                        vals[-1] != vals[0] or vals[0] in vals[1:-1]:
                    problem(k, 'X01.escape', 'an attribute with the value '
                            '%a is written as %a' % (v, s))
                    continue
                r = unescape(vals[1:-1], True)
                if r != legal(v):
                    problem(k, 'X01.escape', 'an attribute with the value '
                            '%a is written as %a' % (v, s))
        if 'attr' in used and 'value' not in used:
            problem(k, 'X01.markup', 'attributes are written without values')
    else:
        s = text('?', '?', '?', 'n')
        if s.startswith('<'):
            k = 'ENDEVENT'
            if not END.match(s):
                problem(k, 'X01.markup', 'the end of an element is written '
                        'as %r' % s)
        elif 'item' in used:
            k = 'Text'
            for v in SAMPLES + ILLEGAL + WITHIN:
                if not taken('?', '?', '?', v):
                    continue
                s = text('?', '?', '?', v)
                bad = bad_chars(s)
                if bad:
                    problem(k, 'X01.chars', 'the character %a in text is '
                            'written, which XML does not allow' % bad)
                    continue
                r = unescape(s, False)
                if r != legal(v):
                    problem(k, 'X01.escape', 'the text %a is written as %a'
                            % (v, s))
                elif ']]>' in s:
                    problem(k, 'X01.escape', 'the text %a is written as %a'
                            % (v, s))
        else:
            problem(want or 'Text', 'X01.markup', '%r is written for an '
                    'event' % s)
            return want
    if want and want != k:
        problem(want, 'X01.markup', '%s events are written as %s'
                % (want, {'STARTEVENT': 'starts of elements', 'ENDEVENT':
                          'ends of elements', 'Text': 'text'}[k]))
    return k


def bad_chars(s):
    for c in s:
        if c != legal(c):
            return c
    return None


# encodings ------------------------------------------------------------------
DECL = re.compile(r'<\?xml\s+version=["\']1\.[01]["\']\s+'
                  r'encoding=["\']([^"\']*)["\']')


def declared(ctx):
    for text, key in (
            ('from hwp5.xmlmodel import XmlEvents as C\n'
             'def q(events, out):\n    C(events).dump(out)\n',
             'XmlEvents.dump'),
            ('from hwp5.xmlmodel import XmlEvents as C\n'
             'def q(events, out, enc):\n'
             '    C(events).dump(out, xml_encoding=enc)\n',
             'XmlEvents.dump(xml_encoding)'),
            ('from hwp5.xmldump_flat import xmldump_flat as F\n'
             'def q(hwp5file, out):\n    F(hwp5file, out)\n',
             'xmldump_flat')):
        out = T('sym', 'out')
        try:
            g = ctx.query(text, args={'out': out}, inline=writer)
        except Exception:
            continue
        ws = [n for n in g.nodes if n.kind == 'call' and n.args and
              n.get('fn') is not None and n.fn.op == 'attr' and
              n.fn.args[0] is out and n.fn.args[1] in ('write',
                                                       'writelines')]
        if not ws:
            continue
        encs, decls = [], []
        for n in ws:
            for a in alternatives(n.args[0]):
                d = declaration(a)
                if d is not None:
                    decls.append((n, d))
                e = encoded(a)
                if e is not None:
                    encs.append((n, e, d is not None))
        bad = None
        if not decls:
            bad = ('no encoding is declared', ws[0])
        for n, d in decls:
            for m, e, own in encs:
                if not same(d, e):
                    bad = bad or (
                        'the declaration says %s, %s is encoded in %s' % (
                            show(d), 'itself' if own else 'the document',
                            show(e)), m)
            before = preceding(g, n.id, {w.id for w in ws} -
                               {x.id for x, _ in decls})
            if before:
                bad = bad or ('something is written before the declaration',
                              n)
        if bad:
            ctx.bad('X01.encoding', key, bad[0], ctx.where(bad[1]))
        else:
            ctx.ok('X01.encoding', key)


def writer(f, w):
    return f.module.name == 'hwp5.xmlformat' or \
        f.module.name in ('hwp5.xmlmodel', 'hwp5.xmldump_flat',
                          'hwp5._query') and (
            not f.name.startswith('xmlevents_from') and
            not f.name.startswith('modelevents_to'))


def show(e):
    return short(e) if isinstance(e, Term) else repr(e)


def norm(e):
    if isinstance(e, Term) and is_const(e):
        e = cval(e)
    return e.lower().replace('_', '-').replace('utf8', 'utf-8') \
        if isinstance(e, str) else e


def same(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, Term) != isinstance(b, Term):
        return False
    return a is b or a == b


def declaration(a):
    """encoding that a declaration states"""
    fn, args = fn_args(a)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'encode':
        return declaration(fn.args[0])
    if is_const(a):
        v = cval(a)
        if isinstance(v, bytes):
            v = v.decode('latin-1')
        m = DECL.match(v) if isinstance(v, str) else None
        return m.group(1) if m else None
    hole = []

    def leaf(t):
        if is_const(t) or fn_args(t)[0] is not None and \
                fn_args(t)[0].op == 'attr' and \
                fn_args(t)[0].args[1] in ('format', 'join') or \
                t.op in ('bin', 'fstr'):
            return None
        hole.append(t)
        return 'HOLE%d' % (len(hole) - 1)
    try:
        s = evaluate(a, leaf)
    except Unknown:
        return None
    m = DECL.match(s)
    if not m:
        return None
    e = m.group(1)
    return hole[int(e[4:])] if e.startswith('HOLE') else e


def encoded(a):
    """encoding of bytes"""
    fn, args = fn_args(a)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'encode':
        kw = kwargs(a)
        e = args[0] if args else kw.get('encoding')
        if e is None:
            return 'utf-8'
        return cval(e) if is_const(e) else e
    return None


def preceding(g, nid, others):
    """others that may run before the node"""
    out = set()
    for o in others:
        seen, st = set(), [o]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == nid:
                out.add(o)
                break
            st.extend(y for y, l in g.nodes[x].succ
                      if l not in ('exc', 'genexit'))
    return out


# names ----------------------------------------------------------------------
def fields(ctx):
    L = ctx.layout
    margin = ('left', 'right', 'top', 'bottom')
    for ci in L.struct_classes():
        try:
            ms = all_members(ctx, L, ci)
        except Exception:
            continue
        if ms is None:
            continue
        key = ci.fullname if hasattr(ci, 'fullname') else ci.name
        names = {}
        bad = None
        if not NAME.match(ci.name):
            ctx.bad('X01.names', key, 'elements can not be named %r'
                    % ci.name, place(ci))
        for m in ms:
            for nm, what in expanded(ctx, L, m, margin):
                if nm == '<text>':
                    continue
                dn = nm.replace('_', '-')
                if not NAME.match(dn):
                    ctx.bad('X01.names', key, 'attributes can not be named '
                            '%r (%s)' % (dn, what), place(ci))
                    bad = True
                other = names.get(dn)
                if other is not None and not exclusive(m, other[1]):
                    if not bad:
                        ctx.bad('X01.unique', key, '%s and %s both become '
                                'the attribute %r' % (other[0], what, dn),
                                place(ci))
                    bad = True
                names.setdefault(dn, (what, m))
        if not bad:
            ctx.ok('X01.names', key)
            ctx.ok('X01.unique', key)


def place(ci):
    return '%s:%s in %s' % (ci.module.path if hasattr(ci.module, 'path')
                            else ci.module.name, ci.node.lineno, ci.name)


def all_members(ctx, L, ci):
    out = []
    for k in reversed(list(ctx.prog.mro(ci))):
        if isinstance(k, ClassInfo):
            out += L.own_members(k) or []
    return out


def expanded(ctx, L, m, margin):
    """names of attributes that a member becomes"""
    nm, t = m.get('name'), m.get('type')
    if not isinstance(nm, str):
        return
    if isinstance(t, dict) and 'flags' in t:
        yield nm, nm
        for f in t.get('fields') or ():
            if isinstance(f, (list, tuple)) and isinstance(f[0], str):
                yield f[0], '%s.%s' % (nm, f[0])
        return
    if t == 'struct Margin':
        for pos in margin:
            yield '%s-%s' % (nm, pos), nm
        return
    if isinstance(t, str) and t.startswith('struct ') or \
            isinstance(t, dict) and not {'primitive', 'enum', 'hexbytes',
                                         'flags'} & set(t):
        return              # elements of their own, or not known
    yield nm, nm


EQ = re.compile(r"\(?(values\['\w+'\](?:\.\w+)?) == ('[^']*'|\d+)\)?")


def exclusive(a, b):
    """the members never occur together"""
    if a is b:
        return False
    x = dict(EQ.findall(a.get('condition') or ''))
    y = dict(EQ.findall(b.get('condition') or ''))
    return any(k in y and y[k] != v for k, v in x.items()) or \
        'not(%s)' % a.get('condition') == b.get('condition') or \
        'not(%s)' % b.get('condition') == a.get('condition')


# style sheets ---------------------------------------------------------------
XSL = '{http://www.w3.org/1999/XSL/Transform}'


def sheets(ctx):
    for path in stylesheets(ctx.prog.src):
        rel = path[len(ctx.prog.src):].lstrip('/')
        text = ctx.prog.overlay.get(rel) if ctx.prog.overlay else None
        if text is None:
            with open(path, encoding='utf-8') as f:
                text = f.read()
        root = parse(rel, text)
        if root is None:
            continue
        bad = None
        todo = [root]
        while todo:
            e = todo.pop()
            if e.xsl in ('value-of', 'text') and \
                    e.attrs.get('disable-output-escaping') == 'yes':
                bad = (e, 'contents are written without escaping')
            if e.xsl == 'output' and e.attrs.get('cdata-section-elements'):
                pass
            todo += e.children
        if bad:
            ctx.bad('X01.sheets', rel, bad[1], '%s:%s' % (rel, bad[0].line))
        else:
            ctx.ok('X01.sheets', rel)


# other places ---------------------------------------------------------------
TAG = re.compile(r'</?[A-Za-z][\w:.-]*(\s[^<>]*)?/?>|<[A-Za-z][\w:.-]*\s+'
                 r'[\w:.-]+=["\']')


def sites(ctx, but):
    """markup made by formatting texts"""
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        if f.name in ('__repr__', '__str__', '__unicode__') or f in but:
            continue
        seen = set()
        for n in g.nodes:
            vs = []
            if n.kind == 'call' and n.get('fn') is not None and \
                    n.fn.op == 'attr' and n.fn.args[1] in (
                        'write', 'writelines', 'writestr'):
                vs = list(n.args or ())
            elif n.kind == 'yield' and n.get('value') is not None:
                vs = [n.value]
            for v in vs:
                for a in alternatives(v):
                    r = raw_markup(a)
                    if r is not None and (r[0], r[1]) not in seen:
                        seen.add((r[0], r[1]))
                        key = '%s: %s' % (f.fullname, short(r[1], 50))
                        ctx.bad('X01.sites', key, '%s is put into markup '
                                'without escaping' % short(r[1]),
                                ctx.where(n))


def raw_markup(v):
    """(text, value) of a text with tags that an unescaped value is put in"""
    leaves = []

    def leaf(t):
        if is_const(t):
            return None
        fn, args = fn_args(t)
        if t.op in ('bin', 'fstr') or fn is not None and (
                fn.op == 'attr' and fn.args[1] in (
                    'replace', 'sub', 'translate', 'format', 'join',
                    'encode', 'decode') or
                fn.op == 'ext' and fn.args[0].split('.')[-1] in (
                    'escape', 'quoteattr', 'sub', 'quote')):
            return None
        leaves.append(t)
        return '\x00' if len(leaves) == 1 else 'n'
    try:
        s = evaluate(v, leaf)
    except (Unknown, TypeError, ValueError, KeyError, IndexError,
            AttributeError):
        return None
    if not TAG.search(s.replace('\x00', 'n')) or not leaves:
        return None
    for i, l in enumerate(leaves):
        def second(t, k=[0], l=l):
            if t is l:
                return '<&"'
            return leaf(t) if t in leaves else None
        try:
            s = evaluate(v, second)
        except Exception:
            return None
        if '<&' in s:
            return s, l
    return None


F = 'hwp5/xmlformat.py'
M = 'hwp5/xmlmodel.py'
D = 'hwp5/xmldump_flat.py'
TEXT = """            text = escape(item)
            text = ILLEGAL_XML_CHARS.sub('', text)
"""
QUOTE = """                v = quoteattr(v, entities)
                v = ILLEGAL_XML_CHARS.sub('', v)
"""
CLS = r"""    '[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff' +
    ('\ud800-\udfff' if PY3 else '') +
    ']'
"""
witnesses = [
    ('text not escaped', F, TEXT, TEXT.replace("escape(item)", "item")),
    ('value not escaped', F, "quoteattr(v, entities)", "'\"' + v + '\"'"),
    ('value escaped as text', F, "quoteattr(v, entities)",
     "'\"' + escape(v) + '\"'"),
    ('text escaped as value', F, "escape(item)", "quoteattr(item)"),
    ('ampersand not escaped', F, "escape(item)",
     "item.replace('<', '&lt;').replace('>', '&gt;')"),
    ('wrong order', F, "escape(item)",
     "item.replace('<', '&lt;').replace('&', '&amp;')"),
    ('twice', F, "escape(item)", "escape(escape(item))"),
    ('only nul in text', F, TEXT, TEXT.replace(
        "ILLEGAL_XML_CHARS.sub('', text)", "text.replace('\\x00', '')")),
    ('only nul in values', F, QUOTE, QUOTE.replace(
        "ILLEGAL_XML_CHARS.sub('', v)", "v.replace('\\x00', '')")),
    ('no surrogates', F, CLS, CLS.replace(r"\ud800-\udfff", '')),
    ('vertical tab', F, CLS, CLS.replace(r"\x0b\x0c", r"\x0c")),
    ('too many', F, CLS, CLS.replace(r"\x0b\x0c", r"\x0b\x0c\x7f")),
    ('noncharacters', F, CLS, CLS.replace(r"\ufffe\uffff", r"\uffff")),
    ('references to control characters', F,
     "text = ILLEGAL_XML_CHARS.sub('', text)",
     "text = text.replace('\\x00', '&#0;')"),
    ('replacement is markup', F, "ILLEGAL_XML_CHARS.sub('', text)",
     "ILLEGAL_XML_CHARS.sub('<?>', text)"),
    ('line breaks in values', F, "quoteattr(v, entities)",
     "'\"' + escape(v, {'\"': '&quot;'}) + '\"'"),
    ('tags swapped', F, "        elif event is Text:\n            text =",
     "        elif event is ENDEVENT:\n            text ="),
    ('no space', F, "                yield ' '\n", ""),
    ('not closed', F, "            yield '>'\n        elif event is Text",
     "        elif event is Text"),
    ('end as start', F, "yield '</'", "yield '<'"),
    ('no name at the end', F, "            yield item\n            yield '>'",
     "            yield '>'"),
    ('blank text dropped', F, """            yield text
        elif""", """            if text.strip():
                yield text
        elif"""),
    ('declared encoding', M, "'<?xml version=\"1.0\" encoding=\"{}\"?>\\n'",
     "'<?xml version=\"1.0\" encoding=\"utf-8\"?>\\n'"),
    ('encoding not passed', M, "xmlevents_to_bytechunks(self, encoding)",
     "xmlevents_to_bytechunks(self)"),
    ('flat: other encoding', D, 'encoding="utf-8"', 'encoding="euc-kr"'),
    ('flat: other default', F, "xmlevents, encoding='utf-8'",
     "xmlevents, encoding='euc-kr'"),
    ('declaration last', D, """    if xml_declaration:
        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
    for x in bytechunks:
        output.write(x)
""", """    for x in bytechunks:
        output.write(x)
    if xml_declaration:
        output.write(b'<?xml version="1.0" encoding="utf-8"?>')
"""),
    ('name with a space', 'hwp5/binmodel/tagid50_para_header.py',
     "'parashape_id'", "'parashape id'"),
    ('two attributes of one name', 'hwp5/binmodel/tagid50_para_header.py',
     "2, 'new_page'", "2, 'style_id'"),
    ('dash and underscore', 'hwp5/binmodel/tagid50_para_header.py',
     "2, 'new_page'", "2, 'style-id'"),
    ('escaping turned off', 'hwp5/xsl/hwp5html.xsl',
     '<xsl:value-of select="text()"/>',
     '<xsl:value-of select="text()" disable-output-escaping="yes"/>'),
    ('markup by hand', 'hwp5/hwp5odt.py',
     "        file_entry(full_path, media_type)\n",
     "        f.write('<file-entry full-path=\"%s\"/>' % full_path)\n"),
]
benign = [
    ('method', F, TEXT, """            text = ILLEGAL_XML_CHARS.sub('', escape(item))
"""),
    ('before escaping', F, TEXT, """            text = escape(ILLEGAL_XML_CHARS.sub('', item))
"""),
    ('by hand', F, "quoteattr(v, entities)",
     "'\"' + escape(v, {'\"': '&quot;', '\\n': '&#10;', '\\t': '&#9;', "
     "'\\r': '&#13;'}) + '\"'"),
    ('one chunk', F, """            yield '</'
            yield item
            yield '>'""", """            yield '</' + item + '>'"""),
    ('formatted', F, """            yield '</'
            yield item
            yield '>'""", """            yield '</{}>'.format(item)"""),
    ('sorted', F, "in item[1].items():", "in sorted(item[1].items()):"),
    ('unpacked', F, """            yield item[0]
            for n, v in item[1].items():""", """            name, attrs = item
            yield name
            for n, v in attrs.items():"""),
    ('keys', F, "            for n, v in item[1].items():",
     "            attrs = item[1]\n            for n in attrs:\n"
     "                v = attrs[n]"),
    ('helper', F, [(TEXT, "            text = to_text(item)\n"),
                   ("def xmlevents_to_bytechunks", """def to_text(s):
    s = ILLEGAL_XML_CHARS.sub('', s)
    return escape(s)


def xmlevents_to_bytechunks""")]),
    ('replacement character', F, "ILLEGAL_XML_CHARS.sub('', text)",
     "ILLEGAL_XML_CHARS.sub('', text)"),
    ('write', M, """        bytechunks = xmlevents_to_bytechunks(self, encoding)
        for chunk in bytechunks:
            yield chunk
""", """        for textchunk in xmlevents_to_bytechunks(self, encoding=encoding):
            yield textchunk
"""),
    ('concatenated declaration', M, """            yield '<?xml version="1.0" encoding="{}"?>\\n'.format(
                encoding
            ).encode(
                encoding
            )
""", """            decl = '<?xml version="1.0" encoding="' + encoding + '"?>\\n'
            yield decl.encode(encoding)
"""),
    ('order of branches', F, """        elif event is Text:
            text = escape(item)
            text = ILLEGAL_XML_CHARS.sub('', text)
            yield text
        elif event is ENDEVENT:
            yield '</'
            yield item
            yield '>'""", """        elif event is ENDEVENT:
            yield '</'
            yield item
            yield '>'
        elif event is Text:
            yield ILLEGAL_XML_CHARS.sub('', escape(item))"""),
]
