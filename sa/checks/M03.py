# -*- coding: utf-8 -*-
"""M03 every character belongs to exactly one language class."""
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..affine import linear
from ..cases import value
from ..iters import iterations, next_value, settle, nodes_on, paths
from ._util import short, fn_args, returns

TECHNIQUE = ('interval analysis of the classification function: its guards '
             'partition the code points into elementary intervals, and the '
             'class that each interval reaches is compared with the table '
             'of Unicode blocks; linear (use-once) dataflow of the '
             'characters through the tokenizer\'s buffer on every path of '
             'its loop')
LEVEL_NOTE = ('The table of blocks and classes is the specification; '
              'characters outside of it belong to "other". The tokenizer is '
              'judged when it keeps a buffer across iterations; other '
              'formulations are not judged.')
EXPLANATION = '''All comparison bounds in the classification function cut the
code points 0..10FFFF into elementary intervals; for each the branch outcomes
are determined and the returned class is compared with the specified one. The
classes returned are members of the character shape's font table, of the font
counts and of the font lookup. In the tokenizer every path of one iteration
adds the character exactly once to the buffer, hands the buffer out before it
is replaced, and hands out the class that the buffer was collected under.'''

BLOCKS = [(0x0000, 0x0040, None), (0x0041, 0x024F, 'en'),
          (0x1100, 0x11FF, 'ko'), (0x2E80, 0x2FDF, 'cn'),
          (0x3000, 0x303F, 'symbol'), (0x3040, 0x30FF, 'jp'),
          (0x3130, 0x318F, 'ko'), (0x3400, 0x4DBF, 'cn'),
          (0x4E00, 0x9FFF, 'cn'), (0xA960, 0xA97F, 'ko'),
          (0xAC00, 0xD7FF, 'ko'), (0xF900, 0xFAFF, 'cn')]
LANGS = ('ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user')


def expected(cp):
    for lo, hi, lang in BLOCKS:
        if lo <= cp <= hi:
            return lang
    return 'other'


def run(ctx):
    ctx.rule('M03.blocks', 'each interval of code points has its class', 1)
    ctx.rule('M03.fonts', 'each class has a font in the character shape', 1)
    ctx.rule('M03.tokens', 'splitting by class keeps every character once', 1)
    f = ctx.prog.find_func('hwp5.charsets', 'get_unichr_lang')
    if f is None:
        ctx.broken('get_unichr_lang not found')
    g = ctx.query('from hwp5.charsets import get_unichr_lang\n'
                  'def q(uch):\n    return get_unichr_lang(uch)\n')
    uch = T('sym', 'uch')
    pts = bounds(g, uch) | {b for r in BLOCKS for b in (r[0], r[1] + 1)}
    reps = sorted({0} | {p for b in pts for p in (b - 1, b, b + 1)
                         if 0 <= p <= 0x10ffff} | {0x10ffff})
    got = set()
    bad = []
    undecided = 0
    for cp in reps:
        r = classify(g, uch, cp)
        if r is Undecided:
            undecided += 1
            continue
        got.add(r)
        if r != expected(cp):
            bad.append((cp, r))
    ctx.ok('M03.blocks', '%d elementary intervals, %d undecided' % (
        len(reps), undecided))
    for cp, r in bad[:1]:
        ctx.bad('M03.blocks', 'U+%04X' % cp, 'U+%04X is classified as %r '
                'instead of %r' % (cp, r, expected(cp)), f.fullname)
    fonts(ctx, got)
    tokens(ctx)


class Undecided(Exception):
    pass


def bounds(g, uch):
    out = set()

    def add(v):
        if isinstance(v, str) and len(v) == 1:
            v = ord(v)
        if isinstance(v, int) and not isinstance(v, bool) and \
                0 <= v <= 0x10ffff:
            out.update((v, v + 1))
    for n in g.nodes:
        for k in ('cond', 'iter', 'value'):
            t = n.get(k)
            if isinstance(t, Term):
                for x in subterms(t):
                    if is_const(x):
                        v = cval(x)
                        for y in flat(v):
                            add(y)
    return out


def flat(v):
    if isinstance(v, (tuple, list, set, frozenset)):
        for x in v:
            for y in flat(x):
                yield y
    else:
        yield v


def classify(g, uch, cp):
    """the class the graph returns for a code point, following the branches
    its interval decides; loops over constant tables are followed row by
    row"""
    rows = {}

    def num(t, env):
        if t is uch:
            return chr(cp)
        if t in env:
            return env[t]
        if is_const(t):
            return cval(t)
        if t.op in ('tuple', 'list'):
            return tuple(num(a, env) for a in t.args)
        if t.op == 'gval':
            return num(t.args[-1], env)
        if t.op in ('item', 'sub'):
            b = num(t.args[0], env)
            i = t.args[1] if isinstance(t.args[1], int) else \
                num(t.args[1], env)
            try:
                return b[i]
            except Exception:
                raise Undecided
        fn, a = fn_args(t)
        if fn is not None and fn.op == 'ext' and len(a) == 1 and \
                fn.args[0] == 'builtins.ord':
            return ord(num(a[0], env))
        if fn is not None and fn.op == 'ext' and len(a) == 1 and \
                fn.args[0] == 'builtins.chr':
            return chr(num(a[0], env))
        if t.op == 'cmp':
            a, b = num(t.args[1], env), num(t.args[2], env)
            op = t.args[0]
            try:
                return {'<': lambda: a < b, '<=': lambda: a <= b,
                        '>': lambda: a > b, '>=': lambda: a >= b,
                        '==': lambda: a == b, '!=': lambda: a != b,
                        'is': lambda: a is b or a == b,
                        'is not': lambda: a != b,
                        'in': lambda: a in b,
                        'not in': lambda: a not in b}[op]()
            except (TypeError, KeyError):
                raise Undecided
        if t.op == 'and':
            return all(num(x, env) for x in t.args)
        if t.op == 'or':
            return any(num(x, env) for x in t.args)
        if t.op == 'not':
            return not num(t.args[0], env)
        if t.op == 'ite':
            return num(t.args[1] if num(t.args[0], env) else t.args[2], env)
        raise Undecided
    env = {}
    x = g.entry
    result = Undecided
    try:
        for _ in range(5000):
            n = g.nodes[x]
            if n.kind == 'return' and isinstance(n.value, Term):
                # the value of the innermost function decides
                v = None
                try:
                    v = num(n.value, env)
                    result = v
                except Undecided:
                    pass
            if n.kind == 'exit-return':
                return result
            succ = [(y, l) for y, l in n.succ if l not in ('exc', 'genexit')]
            if n.kind == 'branch':
                c = bool(num(n.cond, env))
                succ = [(y, l) for y, l in succ if (l == 'T') == c]
            elif n.kind == 'loop':
                if n.get('iter') is None:
                    return Undecided
                succ = succ[:1]
            elif n.kind == 'next':
                it = num(n.iter, {})
                if isinstance(it, dict):
                    it = list(it)
                i = rows.get(x, 0)
                el = T('elem', n.iter, n.id) if False else None
                if i < len(it):
                    rows[x] = i + 1
                    for m in g.nodes:
                        for k in ('cond', 'value'):
                            t = m.get(k)
                            if isinstance(t, Term):
                                for s in subterms(t):
                                    if s.op == 'elem' and \
                                            s.args[0] is n.iter:
                                        env[s] = it[i]
                    succ = [(y, l) for y, l in succ if l == 'T']
                else:
                    succ = [(y, l) for y, l in succ if l == 'F']
            if not succ:
                return result
            x = succ[0][0]
    except Undecided:
        return Undecided
    return Undecided


def fonts(ctx, got):
    names = {x for x in got if x is not None}
    ctx.check(names <= set(LANGS), 'M03.fonts', 'classes',
              'the classes %s have no font' % sorted(names - set(LANGS)))
    # the classes handed out when nothing else is known
    f = ctx.prog.find_func('hwp5.charsets', 'tokenize_unicode_by_lang')
    g = ctx.graphs.get(f)
    if g is not None:
        for n in g.nodes:
            if n.kind == 'yield' and n.value is not None and \
                    n.value.op == 'tuple' and len(n.value.args) == 2:
                for a in alternatives(n.value.args[0]):
                    for x in (a.args if a.op == 'or' else (a,)):
                        if is_const(x) and isinstance(cval(x), str):
                            ctx.check(cval(x) in LANGS, 'M03.fonts',
                                      'default', 'the class %r has no font'
                                      % cval(x), ctx.where(n))
    # the fonts are numbered consecutively in the order of the classes
    for f, g in ctx.graphs.items():
        if f.module != 'hwp5.binmodel' and f.name != 'facenames_by_lang':
            continue
        for n in g.nodes:
            if n.kind == 'setitem' and is_const(n.key) and cval(n.key) in \
                    LANGS and n.value.op == 'sub' and \
                    n.value.args[1].op == 'slice':
                lo, hi = n.value.args[1].args[:2]
                a, b = members(lo), members(hi)
                if a is None or b is None:
                    continue
                i = LANGS.index(cval(n.key))
                ctx.check(a == sorted(LANGS[:i]) and
                          b == sorted(LANGS[:i + 1]), 'M03.fonts', 'lookup',
                          'the fonts of %s are those after %s up to %s'
                          % (cval(n.key), a, b), ctx.where(n))
    ctx.ok('M03.fonts', 'classes %s' % sorted(names))


def members(t):
    """the classes whose counts of fonts a bound is the sum of"""
    k, d = linear(t)
    if k != 0:
        return None
    out = []
    for x, c in d.items():
        if c != 1 or x.op != 'sub' or not is_const(x.args[1]) or \
                not str(cval(x.args[1])).endswith('_fonts'):
            return None
        out.append(cval(x.args[1])[:-6])
    return sorted(out)


def tokens(ctx):
    f = ctx.prog.find_func('hwp5.charsets', 'tokenize_unicode_by_lang')
    if f is None:
        ctx.broken('tokenize_unicode_by_lang not found')
    g = ctx.graphs[f]
    text = T('sym', f.node.args.args[0].arg)
    loops = [n for n in g.nodes if n.kind == 'loop' and n.get('iter') is
             text]
    if len(loops) != 1:
        ctx.ok('M03.tokens', 'undecided')
        return
    lp = loops[0]
    buf = [lv for lv in g.loopvars if lv.args[0] == lp.id and
           is_empty(g.loopvars[lv][0])]
    elem = None
    for n in g.nodes:
        for v in n.d.values():
            for t in (v if isinstance(v, (tuple, list)) else (v,)):
                if isinstance(t, Term):
                    for x in subterms(t):
                        if x.op == 'elem' and x.args[0] is text:
                            elem = x
    langs = {t for n in g.nodes if n.kind == 'call' and n.get('target')
             is not None and n.target.name == 'get_unichr_lang'
             for t in (n.result,)}
    if len(buf) != 1 or elem is None:
        ctx.ok('M03.tokens', 'undecided')
        return
    B = buf[0]
    L = [lv for lv in g.loopvars if lv.args[0] == lp.id and any(
        t in langs for nx in g.loopvars[lv][1]
        for t in subterms(nx)) and is_const(g.loopvars[lv][0]) and
        cval(g.loopvars[lv][0], 1) is None]
    R = 'M03.tokens'
    where = ctx.where(lp)

    def flushes(n):
        return n.kind == 'yield' and n.value is not None and any(
            t is B for t in subterms(n.value))

    its, outs = iterations(g, lp.id)
    if its is None:
        ctx.ok(R, 'undecided')
        return
    for p in its:
        if not any(l == 'T' and g.nodes[x].kind == 'next'
                   for x, l, y in p):
            continue
        acc = account(g, p, B, elem)
        if acc is None:
            continue
        out, kept = acc
        desc = 'when %s' % describe(p, g)
        n = (out + kept).count('c')
        ctx.check(n >= 1, R, 'lost', 'a character is dropped %s' % desc,
                  where)
        ctx.check(n <= 1, R, 'repeated', 'a character is kept twice %s'
                  % desc, where)
        n = (out + kept).count('B')
        ctx.check(n >= 1, R, 'buffer lost', 'collected characters are '
                  'dropped %s' % desc, where)
        ctx.check(n <= 1, R, 'buffer repeated', 'collected characters are '
                  'handed out again %s' % desc, where)
        ctx.check(out + kept != ['c', 'B'], R, 'order', 'a character is put '
                  'before the collected ones %s' % desc, where)
        fresh = 'B' not in kept
        if len(L) == 1 and len(langs) == 1:
            lang = list(langs)[0]
            none = any(g.nodes[x].kind == 'branch' and
                       is_none_test(g.nodes[x].cond, lang, l == 'T')
                       for x, l, y in p)
            ln = next_value(g, p, L[0])
            if ln is None or ln.op in ('ite', 'phi'):
                pass
            elif fresh:
                ctx.check(ln is lang, R, 'class', 'the class of the next '
                          'token is %s %s' % (short(ln), desc), where)
            elif none:
                ctx.check(ln is L[0], R, 'class', 'the class of a token is '
                          'changed to %s by a character without class'
                          % short(ln), where)
            elif ln is not lang and not same(p, g, L[0], lang):
                ctx.bad(R, 'class', 'the class of a token is not that of '
                        'its characters %s' % desc, where)
    # different classes are separated
    if len(L) == 1 and len(langs) == 1:
        lang = list(langs)[0]
        ev = differ(L[0], lang)
        its, _ = iterations(g, lp.id, ev)
        for p in its or ():
            if not any(l == 'T' and g.nodes[x].kind == 'next'
                       for x, l, y in p):
                continue
            acc = account(g, p, B, elem)
            if acc is None:
                continue
            ctx.check('B' not in acc[1] or 'c' not in acc[1], R, 'mixed',
                      'characters of different classes are put into one '
                      'token', where)
    # the class handed out with a token
    for n in g.nodes:
        if flushes(n) and n.value.op == 'tuple' and len(L) == 1 and \
                len(n.value.args) == 2:
            ctx.check(L[0] in set(subterms(n.value.args[0])), R,
                      'class of token', 'a token is handed out as %s'
                      % short(n.value.args[0]), ctx.where(n))
            e = n.value.args[1]
            fn, a = fn_args(e)
            if fn is not None and fn.op == 'attr' and fn.args[1] == 'join':
                ctx.check(is_const(fn.args[0]) and cval(fn.args[0]) == '',
                          R, 'join', 'the characters of a token are joined '
                          'by %s' % short(fn.args[0]), ctx.where(n))
            ctx.check(not any(x.op == 'sub' and x.args[0] is B
                              for x in subterms(e)), R, 'cut',
                      'only a part of the buffer is handed out',
                      ctx.where(n))
    # the rest
    end = [y for n in g.nodes if n.kind == 'next' and n.loop == lp.id
           for y, l in n.succ if l == 'F']

    def full(c):
        if c is B:
            return True
        fn, a = fn_args(c)
        if c.op == 'cmp':
            for u, v in (c.args[1:], c.args[:0:-1]):
                fu, au = fn_args(u)
                if fu is not None and fu.op == 'ext' and fu.args[0] == \
                        'builtins.len' and au[0] is B and is_const(v) and \
                        cval(v) == 0:
                    return c.args[0] in ('>', '!=', '<') and \
                        c.args[0] != '=='
        return None
    stops = {n.id for n in g.nodes if n.kind == 'exit-return'}
    ps = []
    for s in end:
        ps += paths(g, s, stops, full) or []
    for p in ps:
        c = sum(flushes(n) for n in nodes_on(g, p))
        ctx.check(c == 1, R, 'rest', 'the last token is %s' % (
            'dropped' if not c else 'repeated'), where)
    ctx.ok(R, '%d paths' % len(its or ()))


def is_empty(t):
    return t.op in ('list', 'newlist') and not [
        a for a in t.args if isinstance(a, Term)] or \
        is_const(t) and cval(t) in ('',) or \
        short(t) in ('l[]', '[]', "''")


def account(g, p, B, elem):
    """what a path of an iteration hands out and what it keeps, as sequences
    of "B" (the characters collected before) and "c" (the character)"""
    state = {}
    out = []

    def content(t):
        t = settle(g, p, t)
        if t in state:
            return state[t]
        if t is B:
            return ['B']
        if t is elem:
            return ['c']
        if is_const(t):
            return []
        if t.op in ('list', 'tuple'):
            return [y for a in t.args if isinstance(a, Term)
                    for y in need(a)]
        if t.op == 'bin' and t.args[0] == '+':
            return need(t.args[1]) + need(t.args[2])
        fn, a = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'join':
            return need(a[0])
        if fn is not None and fn.op == 'ext' and len(a) == 1 and fn.args[0] \
                in ('builtins.list', 'builtins.tuple', 'builtins.str'):
            return need(a[0])
        if elem in set(subterms(t)) or B in set(subterms(t)):
            raise Undecided
        return []

    def need(t):
        return list(content(t))
    try:
        for n in nodes_on(g, p):
            if n.kind == 'yield' and n.value is not None:
                v = settle(g, p, n.value)
                if v.op == 'tuple' and len(v.args) == 2:
                    v = v.args[1]
                out += need(v)
            elif n.kind == 'call' and n.fn.op == 'attr':
                r = settle(g, p, n.fn.args[0])
                m = n.fn.args[1]
                if m in ('append', 'extend', 'write') and n.args:
                    state[r] = need(r) + need(n.args[0])
                elif m == 'insert' and len(n.args) == 2:
                    if is_const(n.args[0]) and cval(n.args[0]) == 0:
                        state[r] = need(n.args[1]) + need(r)
                    else:
                        return None
                elif m == 'clear':
                    state[r] = []
                elif r is B and m != 'join':
                    return None
            elif n.kind in ('setitem', 'delitem') and n.get('obj') is B:
                k = n.get('key')
                if k is not None and k.op == 'slice' and all(
                        is_const(x) and x.args[0] is None for x in k.args):
                    state[B] = need(n.value) if n.kind == 'setitem' else []
                else:
                    return None
        nx = next_value(g, p, B)
        if nx is None:
            return None
        return out, need(nx)
    except Undecided:
        return None


def is_none_test(c, lang, pol):
    if c is lang:
        return not pol
    if c.op == 'not' and c.args[0] is lang:
        return pol
    if c.op == 'cmp' and lang in c.args[1:] and any(
            is_const(x) and x.args[0] is None for x in c.args[1:]):
        return (c.args[0] in ('is', '==')) == pol
    return False


def same(p, g, L, lang):
    for x, l, y in p:
        n = g.nodes[x]
        if n.kind == 'branch' and n.cond.op == 'cmp' and \
                set(n.cond.args[1:]) == {L, lang}:
            if (n.cond.args[0] in ('==', 'is')) == (l == 'T'):
                return True
    return False


def differ(L, lang):
    def ev(c):
        if c is L or c is lang:
            return True
        if c.op == 'cmp':
            a, b = c.args[1:]
            if {a, b} == {L, lang}:
                return {'==': False, 'is': False, '!=': True,
                        'is not': True}.get(c.args[0])
            for x, y in ((a, b), (b, a)):
                if x in (L, lang) and is_const(y) and y.args[0] is None:
                    return {'==': False, 'is': False, '!=': True,
                            'is not': True}.get(c.args[0])
        return None
    return ev


def describe(p, g):
    out = []
    for x, l, y in p:
        n = g.nodes[x]
        if n.kind == 'branch' and l in ('T', 'F'):
            out.append('%sline %s' % ('' if l == 'T' else 'not ',
                                      n.loc.split(':')[-1]))
    return ', '.join(out[-3:])


F = 'hwp5/charsets.py'
witnesses = [
    ('bound', F, "u'\\uAC00' <= uch <= u'\\uD7FF'",
     "u'\\uAC00' <= uch <= u'\\uD7AF'"),
    ('bound2', F, "u'\\u3040' <= uch <= u'\\u30FF'",
     "u'\\u3041' <= uch <= u'\\u30FF'"),
    ('strict', F, "u'\\u4E00' <= uch <= u'\\u9FFF'",
     "u'\\u4E00' <= uch < u'\\u9FFF'"),
    ('order', F, "u'\\u0000' <= uch <= u'\\u0040'",
     "u'\\u0000' <= uch <= u'\\u0050'"),
    ('class', F, "    if u'\\u3000' <= uch <= u'\\u303F':\n"
     "        return 'symbol'", "    if u'\\u3000' <= uch <= u'\\u303F':\n"
     "        return 'jp'"),
    ('no font', F, "return 'symbol'", "return 'sym'"),
    ('lost char', F, '            buf = [uch]\n', '            buf = []\n'),
    ('lost neutral', F, '''        if lang is None:
            buf.append(uch)
            continue
''', '''        if lang is None:
            if buf:
                buf.append(uch)
            continue
'''),
    ('twice', F, '''            buf = [uch]
            buf_lang = lang
''', '''            buf.append(uch)
            buf_lang = lang
'''),
    ('no flush', F, '''            yield buf_lang or 'ko', ''.join(buf)
            buf = [uch]
''', '''            if len(buf) > 1:
                yield buf_lang or 'ko', ''.join(buf)
            buf = [uch]
'''),
    ('wrong class', F, '''            yield buf_lang or 'ko', ''.join(buf)
            buf = [uch]
''', '''            yield lang or 'ko', ''.join(buf)
            buf = [uch]
'''),
    ('no rest', F, '''    if buf:
        yield''', '''    if buf and buf_lang:
        yield'''),
    ('stale class', F, '''            buf = [uch]
            buf_lang = lang
''', '''            buf = [uch]
'''),
    ('mixed', F, 'if buf_lang == lang or buf_lang is None:',
     'if buf_lang == lang or len(buf) < 2:'),
    ('lookup', 'hwp5/binmodel/__init__.py',
     "'ko', 'en', 'cn', 'jp', 'other', 'symbol', 'user'",
     "'ko', 'en', 'jp', 'cn', 'other', 'symbol', 'user'"),
]
benign = [
    ('ord', F, [("    if u'\\uAC00' <= uch <= u'\\uD7FF':",
                 "    code = ord(uch)\n    if 0xac00 <= code < 0xd800:")]),
    ('order', F, "    if u'\\u0040' <= uch <= u'\\u024F':",
     "    if u'\\u0041' <= uch and uch < u'\\u0250':"),
    ('string', F, [('    buf = []\n', "    buf = ''\n"),
                   ('            buf.append(uch)\n            continue\n'
                    '        if', '            buf += uch\n'
                    '            continue\n        if'),
                   ('            buf.append(uch)\n            continue\n'
                    '        else', '            buf = buf + uch\n'
                    '            continue\n        else'),
                   ('            buf = [uch]', '            buf = uch'),
                   ("            yield buf_lang or 'ko', ''.join(buf)",
                    "            yield buf_lang or 'ko', buf"),
                   ("        yield buf_lang or 'ko', ''.join(buf)",
                    "        yield buf_lang or 'ko', buf")]),
    ('merged', F, '''        if lang is None:
            buf.append(uch)
            continue
        if buf_lang == lang or buf_lang is None:
            buf_lang = lang
            buf.append(uch)
            continue
        else:
            yield buf_lang or 'ko', ''.join(buf)
            buf = [uch]
            buf_lang = lang
''', '''        if lang is not None:
            if buf_lang is not None and buf_lang != lang:
                yield buf_lang, ''.join(buf)
                buf = []
            buf_lang = lang
        buf.append(uch)
'''),
    ('table', F, [('''    # CJK Symbols and Punctuation
    # U+3000..U+303F
    if u'\\u3000' <= uch <= u'\\u303F':
        return 'symbol'

    # -- jp --

    # Hiragana + Katakana
    if u'\\u3040' <= uch <= u'\\u30FF':
        return 'jp'
''', '''    for lo, hi, lang in RANGES:
        if lo <= uch <= hi:
            return lang
'''), ('def get_unichr_lang', '''RANGES = (
    (u'\\u3000', u'\\u303F', 'symbol'),
    (u'\\u3040', u'\\u30FF', 'jp'),
)


def get_unichr_lang''')]),
]
