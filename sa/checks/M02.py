# -*- coding: utf-8 -*-
"""M02 paragraph text is split into characters and controls by the format."""
import re
from ..terms import (T, Term, is_const, cval, subterms, alternatives, const)
from ..cases import walk, value
from ..affine import linear
from ..prog import ClassInfo, FuncInfo
from ._util import short, fn_args, returns, part, parts, term_values

TECHNIQUE = ('constant propagation of the control-code tables against the '
             'format\'s table, byte-interval analysis of the decoder under '
             'the valuation of each code, and a tiling analysis of the '
             'chunk loop (intervals along every path of the loop body)')
LEVEL_NOTE = ('The search for the next control is decided on the constant '
              'pattern and the guards of its result; positions are counted '
              'in bytes of the record payload. Restructurings of the loop '
              'that the tiling analysis does not recognise are not judged.')
EXPLANATION = '''The table of control codes is folded from the source and
compared code by code with the HWP 5.0 format: name, kind, length. The decoder
is evaluated abstractly for each code: every byte of a control is attributed
to the field it decodes to. The search only stops at even positions, where a
code below 32 is followed by a zero byte, and does not skip positions. The
chunk loop tiles the text: each chunk starts where the last one ended, its
content is the slice of its interval, and the loop continues at its end.'''

KINDS = {'CHAR': 1, 'INLINE': 8, 'EXTENDED': 8}
TABLE = {}
for _c, _n in enumerate(
        'NULL CTLCHR01 SECTION_COLUMN_DEF FIELD_START FIELD_END CTLCHR05 '
        'CTLCHR06 CTLCHR07 TITLE_MARK TAB LINE_BREAK DRAWING_TABLE_OBJECT '
        'CTLCHR0C PARAGRAPH_BREAK CTLCHR0E HIDDEN_EXPLANATION HEADER_FOOTER '
        'FOOT_END_NOTE AUTO_NUMBER CTLCHR13 CTLCHR14 PAGE_CTLCHR BOOKMARK '
        'CTLCHR17 HYPHEN CTLCHR19 CTLCHR1A CTLCHR1B CTLCHR1C CTLCHR1D '
        'NONBREAK_SPACE FIXWIDTH_SPACE'.split()):
    TABLE[_c] = (_n, 'CHAR' if _c in (0, 10, 13) or _c >= 24 else
                 'INLINE' if _c in (4, 5, 6, 7, 8, 9, 19, 20) else
                 'EXTENDED')
IMP = 'from hwp5.binmodel.controlchar import ControlChar\n'


def run(ctx):
    ctx.rule('M02.table', 'each control code has the name, kind and length '
             'of the format', 32)
    ctx.rule('M02.find', 'controls are found at character boundaries only '
             'and none is skipped', 3)
    ctx.rule('M02.decode', 'each field of a control comes from its bytes', 3)
    ctx.rule('M02.tiling', 'chunks cover the text without gap or overlap', 1)
    ctx.rule('M02.use', 'consumers look up controls by their code', 2)
    tables(ctx)
    find(ctx)
    decode(ctx)
    chid(ctx)
    tiling(ctx)
    uses(ctx)


def tables(ctx):
    g = ctx.query(IMP + 'def q():\n    return (%s)\n' % ', '.join(
        '(ControlChar.kinds[chr(%d)], ControlChar.kinds[chr(%d)].size, '
        'ControlChar.get_name_by_code(%d), '
        'ControlChar.get_kind_by_code(%d))' % (c, c, c, c)
        for c in range(32)))
    rets = returns(g)
    v = rets[0].value if rets else None
    for c in range(32):
        name, kind = TABLE[c]
        row = v.args[c] if v is not None and v.op == 'tuple' and \
            len(v.args) == 32 else None
        if row is None or row.op != 'tuple':
            ctx.ok('M02.table', '%02x undecided' % c)
            continue
        k, size, nm, k2 = row.args
        for what, t, want in (
                ('kind', kind_name(k), kind), ('length', cval(size),
                                               KINDS[kind]),
                ('name', cval(nm), name), ('kind', kind_name(k2), kind)):
            if what != 'length' and what != 'name' and t is None or \
                    what == 'name' and not is_const(nm) or \
                    what == 'length' and not is_const(size):
                # missing from the table?
                src = k if what != 'name' else nm
                if t is None and missing(src):
                    ctx.bad('M02.table', 'code %02x' % c,
                            'code %02x is not in the table' % c)
                continue
            ctx.check(t == want, 'M02.table', 'code %02x %s' % (c, what),
                      'code %02x has %s %r, the format says %r'
                      % (c, what, t, want))
        ctx.ok('M02.table', '%02x' % c)


def kind_name(t):
    if t.op == 'class' and isinstance(t.args[0], ClassInfo):
        return t.args[0].name
    return None


def missing(t):
    """a lookup in a constant table without that key"""
    if t.op == 'sub' and t.args[0].op == 'dict' and is_const(t.args[1]):
        ks = [k for k in dict_keys(t.args[0])]
        return all(is_const(k) for k in ks) and cval(t.args[1]) not in [
            cval(k) for k in ks]
    return False


def dict_keys(t):
    for x in t.args:
        if isinstance(x, tuple):
            yield x[0]
        elif isinstance(x, Term) and x.op == 'pair':
            yield x.args[0]


# -- the search for the next control
def find(ctx):
    g = ctx.query(IMP + 'def q(data, start):\n'
                  '    return ControlChar.find(data, start)\n')
    pats = []
    for n in g.nodes:
        for t in term_values(n):
            for x in subterms(t):
                fn, a = fn_args(x)
                if fn is not None and fn.op == 'ext' and \
                        fn.args[0] == 're.compile' and a and is_const(a[0]):
                    pats.append(cval(a[0]))
    for p in sorted(set(pats)):
        miss = pattern_error(p)
        ctx.check(miss is None, 'M02.find', 'pattern',
                  'the pattern %r %s' % (p, miss))
    data = T('sym', 'data')
    for n in g.nodes:
        if n.kind != 'return' or n.value.op != 'tuple' or \
                len(n.value.args) != 2:
            continue
        a, b = n.value.args
        fn, x = fn_args(a)
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'start':
            # found: at an even position
            seen = walk(g, [g.entry], parity(a, 1), skip=('exc', 'genexit'))
            ctx.check(n.id not in seen, 'M02.find', 'odd position',
                      'a control is found at an odd byte position',
                      ctx.where(n))
            seen = walk(g, [g.entry], parity(a, 0), skip=('exc', 'genexit'))
            ctx.check(n.id in seen, 'M02.find', 'even position',
                      'a control at an even byte position is not found',
                      ctx.where(n))
            k, d = linear(b)
            size = [t for t in d if t is not a]
            ok = d.get(a) == 1 and k == 0 and len(size) == 1 and \
                d[size[0]] == 2 and size[0].op in ('attr', 'cval') and \
                'size' in [size[0].args[1]]
            ctx.check(ok or not known(b, a), 'M02.find', 'extent',
                      'the extent of a control is %s instead of twice its '
                      'length in characters' % short(b), ctx.where(n))
        elif a is not b and is_len(b, data) != is_len(a, data):
            ctx.bad('M02.find', 'none', 'without a control the search ends '
                    'with %s' % short(n.value), ctx.where(n))
    # a rejected position is left by one byte at most
    for lv, (init, nexts) in g.loopvars.items():
        if init is not T('sym', 'start'):
            continue
        for nx in nexts:
            for t in alternatives(nx):
                k, d = linear(t)
                ps = [x for x in d if fn_args(x)[0] is not None and
                      fn_args(x)[0].op == 'attr' and
                      fn_args(x)[0].args[1] in ('start', 'end')]
                if len(ps) == 1 and len(d) == 1 and d[ps[0]] == 1:
                    off = k + (2 if fn_args(ps[0])[0].args[1] == 'end'
                               else 0)
                    ctx.check(off == 1, 'M02.find', 'restart',
                              'after a match at an odd position the search '
                              'restarts %d bytes later' % off)


def known(b, a):
    k, d = linear(b)
    return a in d and all(x is a or x.op in ('attr', 'cval') and
                          x.args[1] == 'size' for x in d)


def is_len(t, data):
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'ext' and \
        fn.args[0] == 'builtins.len' and a and a[0] is data


def parity(pos, bit):
    def num(t):
        if t.op == 'bin' and t.args[0] in ('&', '%'):
            x, y = t.args[1:]
            if x is pos and cval(y) == (1 if t.args[0] == '&' else 2):
                return bit
            if y is pos and t.args[0] == '&' and cval(x) == 1:
                return bit
        if is_const(t):
            return cval(t)
        return None

    def ev(c):
        if c.op == 'cmp':
            a, b = num(c.args[1]), num(c.args[2])
            if isinstance(a, int) and isinstance(b, int):
                return {'==': a == b, '!=': a != b, '<': a < b,
                        '>': a > b, '<=': a <= b, '>=': a >= b,
                        'is': a == b, 'is not': a != b}.get(c.args[0])
        v = num(c) if c.op == 'bin' else None
        return bool(v) if v is not None else None
    return ev


def pattern_error(p):
    """None if p matches exactly a code below 32 and a zero byte"""
    try:
        try:
            from re import _parser as sre
        except ImportError:
            import sre_parse as sre
        tree = list(sre.parse(p))
    except Exception:
        return None
    items = []
    for op, av in tree:
        op = str(op)
        if op == 'LITERAL':
            items.append({av})
        elif op == 'IN':
            s = set()
            for o, v in av:
                o = str(o)
                if o == 'RANGE':
                    s |= set(range(v[0], v[1] + 1))
                elif o == 'LITERAL':
                    s.add(v)
                else:
                    return None
            items.append(s)
        elif op == 'SUBPATTERN':
            return None
        else:
            return None
    if len(items) < 2:
        return 'does not look at the high byte'
    if items[0] != set(range(32)):
        miss = sorted(set(range(32)) ^ items[0])
        return 'is wrong for code %02x' % miss[0]
    if items[1] != {0}:
        return 'accepts another high byte than zero'
    return None


# -- decoding one control
def interval(t, data):
    """(start, stop) of the bytes of data that t is made of"""
    if t is data:
        return (0, None)
    if t.op == 'sub':
        base = interval(t.args[0], data)
        if base is None:
            return None
        k = t.args[1]
        if k.op == 'slice':
            lo, hi = k.args[0], k.args[1]
            step = k.args[2] if len(k.args) > 2 else const(None)
            if cval(step, None) not in (None, 1) or not (
                    is_const(lo) and is_const(hi)):
                return None
            lo = cval(lo) or 0
            hi = cval(hi)
            if lo < 0 or hi is not None and hi < 0:
                return None
            s = base[0] + lo
            e = base[0] + hi if hi is not None else base[1]
            if base[1] is not None and (e is None or e > base[1]):
                e = base[1]
            return (s, e)
        if is_const(k) and isinstance(cval(k), int) and cval(k) >= 0:
            return (base[0] + cval(k), base[0] + cval(k) + 1)
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'decode' and \
            len(a) >= 1:
        return interval(a[0], data)
    if fn is not None and len(a) == 1 and fn.op == 'ext' and \
            fn.args[0] in ('builtins.chr', 'builtins.ord', 'builtins.bytes',
                           'builtins.bytearray', 'six.unichr'):
        return interval(a[0], data)
    return None


def leaves_of(t, data):
    """byte intervals in the order in which they make up a string"""
    if t.op == 'bin' and t.args[0] == '+':
        a, b = leaves_of(t.args[1], data), leaves_of(t.args[2], data)
        return None if a is None or b is None else a + b
    i = interval(t, data)
    return None if i is None else [i]


def decode(ctx):
    g = ctx.query(IMP + 'def q(data):\n    return ControlChar.decode(data)\n')
    data = T('sym', 'data')
    for c in sorted(TABLE):
        ev = of_code(ctx, c, data)
        seen = walk(g, [g.entry], ev, skip=('exc', 'genexit'))
        vals = [a for n in g.nodes if n.kind == 'return' and n.id in seen
                and n.func is not None and n.func.name == 'decode'
                for a in alternatives(n.value) if entries(a) is not None]
        want = {'code': (0, 2)}
        if TABLE[c][1] != 'CHAR' and c != 9:
            want['param'] = (6, 14)
        if len(vals) != 1 or entries(vals[0]) is None:
            continue
        d = entries(vals[0])
        name = 'code %02x' % c
        for k, w in sorted(want.items()):
            if k not in d:
                ctx.bad('M02.decode', '%s %s' % (name, k),
                        'control %02x is decoded without %s' % (c, k))
                continue
            i = interval(d[k], data)
            if i is None:
                continue
            ctx.check(i == w, 'M02.decode', '%s %s' % (name, k),
                      '%s of control %02x is decoded from bytes %s..%s '
                      'instead of %s..%s' % ((k, c) + i + w))
        if TABLE[c][1] != 'CHAR':
            if c == 9:
                p = entries(d['param']) if 'param' in d else None
                ctx.check('param' in d, 'M02.decode', name + ' param',
                          'a tab is decoded without its parameters')
                for k, w in (('width', (2, 6)), ('unknown0', (6, 7)),
                             ('unknown1', (7, 8)), ('unknown2', (8, 14))):
                    if p is None:
                        continue
                    i = interval(p[k], data) if k in p else None
                    if k in p and i is None:
                        continue
                    ctx.check(i == w, 'M02.decode', '%s %s' % (name, k),
                              '%s of a tab is decoded from bytes %s instead '
                              'of %s' % (k, i, w))
                    ctx.check(k not in p or signedness(p[k]) is not True,
                              'M02.decode', '%s %s sign' % (name, k),
                              '%s of a tab is decoded as signed' % k)
            else:
                ctx.check('chid' in d, 'M02.decode', name + ' chid',
                          'control %02x is decoded without its control id'
                          % c)
                ls = leaves_of(d['chid'], data) if 'chid' in d else None
                if ls is not None:
                    ctx.check(ls == [(5, 6), (4, 5), (3, 4), (2, 3)] or
                              ls == [(2, 6)], 'M02.decode', name + ' chid',
                              'the control id is made of bytes %s' % (ls,))
        else:
            ctx.check('param' not in d and 'chid' not in d, 'M02.decode',
                      name + ' char', 'a single character is decoded with '
                      'parameters')


def signedness(t):
    for x in subterms(t):
        if x.op == 'attr' and x.args[1] == 'decode':
            s = short(x.args[0], 300)
            if re.search(r"\bINT(8|16|32)\b", s):
                return True
    return None


def entries(t):
    """{constant key: value} of a dict term"""
    out = {}
    if t.op == 'dict':
        for x in t.args:
            if isinstance(x, tuple):
                k, v = x
            elif isinstance(x, Term) and x.op in ('pair', 'tuple') and \
                    len(x.args) == 2:
                k, v = x.args
            else:
                return None
            k = cval(k) if isinstance(k, Term) else k
            if k is None:
                return None
            out[k] = v
        return out
    return None


def of_code(ctx, code, data):
    kinds = {'CHAR': 1, 'INLINE': 8, 'EXTENDED': 8}

    def num(t):
        if is_const(t):
            v = cval(t)
            return v
        i = interval(t, data)
        if i == (0, 2):
            fn, a = fn_args(t)
            return chr(code) if fn is not None and fn.op == 'ext' else code
        fn, a = fn_args(t)
        if fn is not None and fn.op == 'ext' and len(a) == 1:
            x = num(a[0])
            if fn.args[0] in ('builtins.chr', 'six.unichr') and \
                    isinstance(x, int):
                return chr(x)
            if fn.args[0] == 'builtins.ord' and isinstance(x, str):
                return ord(x)
        if t.op in ('attr', 'cval') and len(t.args) >= 2:
            if t.args[1] == 'size':
                k = num(t.args[0])
                if isinstance(k, tuple) and k[0] == 'kind':
                    return kinds[k[1]]
            for c, (n, k) in TABLE.items():
                if t.args[1] == n:
                    return chr(c)
        if t.op == 'class' and isinstance(t.args[0], ClassInfo) and \
                t.args[0].name in kinds:
            return ('kind', t.args[0].name)
        if t.op == 'sub':
            k = num(t.args[1])
            if k in (code, chr(code)) and t.args[0].op == 'dict':
                return ('kind', TABLE[code][1])
        return None

    def ev(c):
        if c.op == 'cmp':
            op, a, b = c.args
            x, y = num(a), num(b)
            if op in ('in', 'not in') and b.op in ('tuple', 'list', 'set'):
                vs = [num(z) for z in b.args]
                if x is not None and None not in vs:
                    return (x in vs) == (op == 'in')
                return None
            if x is None or y is None:
                return None
            try:
                return {'==': x == y, '!=': x != y, 'is': x == y,
                        'is not': x != y, '<': op == '<' and x < y,
                        '>': op == '>' and x > y,
                        '<=': op == '<=' and x <= y,
                        '>=': op == '>=' and x >= y}.get(op)
            except TypeError:
                return None
        return None
    return ev


def chid(ctx):
    g = ctx.query('from hwp5.binmodel.controlchar import CHID\n'
                  'def q(data):\n    return CHID.decode(data)\n')
    data = T('sym', 'data')
    for n in g.nodes:
        if n.kind != 'exit-return':
            continue
        for a in alternatives(n.value):
            ls = leaves_of(a, data)
            if ls is None:
                ctx.ok('M02.decode', 'CHID undecided')
                continue
            ctx.check(ls == [(3, 4), (2, 3), (1, 2), (0, 1)], 'M02.decode',
                      'CHID', 'a control id is made of bytes %s' % (ls,),
                      ctx.where(n))


# -- the chunks
def half(t):
    """2*t of a position in characters, as a term in bytes"""
    if t.op == 'bin' and t.args[0] in ('//', '/') and \
            cval(t.args[2]) == 2:
        return t.args[1]
    if t.op == 'bin' and t.args[0] == '>>' and cval(t.args[2]) == 1:
        return t.args[1]
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'ext' and fn.args[0] == 'builtins.int' \
            and a:
        return half(a[0])
    return None


def tiling(ctx):
    stop = ('find', 'decode', 'decode_utf16le_with_hypua')
    g = ctx.query(
        'from hwp5.binmodel.tagid51_para_text import ParaTextChunks\n'
        'def q(data):\n'
        '    for x in ParaTextChunks.parse_chunks(data):\n'
        '        yield x\n', inline=lambda f, w: f.name not in stop)
    data = T('sym', 'data')
    loops = [n for n in g.nodes if n.kind == 'loop']
    judged = False
    for lp in loops:
        ivars = [lv for lv in g.loopvars if lv.args[0] == lp.id]
        pos = [lv for lv in ivars if cval(g.loopvars[lv][0]) == 0 and
               not isinstance(cval(g.loopvars[lv][0]), bool)]
        if len(pos) != 1:
            continue
        p0 = pos[0]
        nexts = g.loopvars[p0][1]
        for path in loop_paths(g, lp.id):
            judged = True
            walk_tiles(ctx, g, path, p0, nexts, data)
        # the loop ends only when the position reaches the end
        for x, l in exits(g, lp.id):
            n = g.nodes[x]
            c = n.get('cond')
            if n.kind != 'branch' or c is None or c.op != 'cmp':
                continue
            op, a, b = c.args
            if l == 'T':
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<',
                      '==': '!=', '!=': '=='}.get(op, op)
            if b is p0:
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op,
                                                                     op)
            if a is p0 and is_len(b, data):
                # exit when not (a op b)
                ctx.check(op in ('<', '!='), 'M02.tiling', 'end',
                          'the text is left before its end', ctx.where(n))
            elif a is p0:
                k, d = linear(b)
                ls = [t for t in d if is_len(t, data)]
                if len(ls) == 1 and len(d) == 1 and d[ls[0]] == 1 and k < 0:
                    ctx.bad('M02.tiling', 'end',
                            'the text is left %d bytes before its end' % -k,
                            ctx.where(n))
    if not judged:
        ctx.ok('M02.tiling', 'undecided')


def loop_body(g, h):
    """nodes on cycles through h"""
    back = [x for x, l in g.nodes[h].pred if reaches(g, h, x)]
    body = {h}
    st = list(back)
    while st:
        x = st.pop()
        if x in body:
            continue
        body.add(x)
        st.extend(y for y, l in g.nodes[x].pred)
    return body


def reaches(g, a, b):
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(y for y, l in g.nodes[x].succ if l not in (
            'exc', 'genexit'))
    return False


def exits(g, h):
    body = loop_body(g, h)
    for x in body:
        for y, l in g.nodes[x].succ:
            if y not in body and l in ('T', 'F'):
                yield x, l


def loop_paths(g, h, limit=256):
    """paths of one iteration as [(node id, label)]"""
    body = loop_body(g, h)
    out = []
    st = [[(h, None)]]
    while st and len(out) < limit:
        p = st.pop()
        for y, l in g.nodes[p[-1][0]].succ:
            if l in ('exc', 'genexit') or y not in body:
                continue
            q = p[:-1] + [(p[-1][0], l)]
            if y == h:
                out.append(q)
            elif y not in [x for x, _ in p]:
                st.append(q + [(y, None)])
    return out


def walk_tiles(ctx, g, path, p0, nexts, data):
    eq = {}

    def find_(t):
        while t in eq:
            t = eq[t]
        return t
    cur = p0
    last = None
    for x, l in path:
        n = g.nodes[x]
        if n.kind == 'branch' and n.get('cond') is not None:
            c = n.cond
            if c.op == 'cmp' and len(c.args) == 3:
                op, a, b = c.args
                # positions only grow: not less means equal
                if (op == '<' and l == 'F') or (op == '>=' and l == 'T') \
                        or (op == '==' and l == 'T') or \
                        (op == '!=' and l == 'F'):
                    merge(eq, find_, a, b)
                if (op == '>' and l == 'F') or (op == '<=' and l == 'T'):
                    if not (op == '<=' and l == 'T'):
                        merge(eq, find_, a, b)
        if n.kind == 'yield' and n.value is not None and \
                n.value.op == 'tuple' and len(n.value.args) == 2 and \
                n.value.args[0].op == 'tuple' and \
                len(n.value.args[0].args) == 2:
            s, e = (half(t) for t in n.value.args[0].args)
            if s is None or e is None:
                rs = [short(t) for t in n.value.args[0].args]
                k = [linear(t) for t in n.value.args[0].args]
                if all(known_pos(t) for t in n.value.args[0].args):
                    ctx.bad('M02.tiling', 'unit', 'the interval (%s, %s) of '
                            'a chunk is not in characters' % tuple(rs),
                            ctx.where(n))
                return
            ctx.check(find_(s) is find_(cur), 'M02.tiling', 'start',
                      'a chunk starts at %s while the last one ended at %s'
                      % (short(s), short(cur)), ctx.where(n))
            sl = slice_of(n.value.args[1], data)
            if sl is not None:
                lo, hi = sl
                ok = find_(lo) is find_(s) and (
                    hi is None and False or find_(hi) is find_(e))
                ctx.check(ok, 'M02.tiling', 'content', 'the chunk of %s..%s '
                          'holds the bytes %s..%s' % (
                              short(s), short(e), short(lo), short(hi)),
                          ctx.where(n))
            cur = e
            last = n
    fin = None
    if len(nexts) == 1 and not alternatives(nexts[0])[1:]:
        fin = nexts[0]
    if fin is not None:
        ctx.check(find_(fin) is find_(cur), 'M02.tiling', 'continue',
                  'the next chunk is looked for at %s while the last one '
                  'ended at %s' % (short(fin), short(cur)),
                  ctx.where(last) if last is not None else None)
    else:
        ctx.ok('M02.tiling', 'continue undecided')


def known_pos(t):
    return all(x.op in ('loopvar', 'item') for x in linear(t)[1])


def merge(eq, find_, a, b):
    a, b = find_(a), find_(b)
    if a is not b:
        eq[a] = b


def slice_of(t, data):
    for x in subterms(t):
        if x.op == 'sub' and x.args[0] is data and x.args[1].op == 'slice':
            return x.args[1].args[0], x.args[1].args[1]
    return None


# -- consumers
def uses(ctx):
    """the attributes of a control in the XML events"""
    f = ctx.prog.find_func('hwp5.xmlmodel', 'range_shaped_textchunk_events')
    if f is None:
        ctx.ok('M02.use', 'undecided')
        ctx.ok('M02.use', 'undecided')
        return
    g = ctx.graph(f, inline=lambda x, w: False)
    for n in g.nodes:
        if n.kind != 'yield' or n.value is None:
            continue
        for t in subterms(n.value):
            if t.op == 'dict':
                d = entries(t)
                if d is None or 'code' not in d:
                    continue
                code = d['code']
                ctx.check(code.op == 'sub' and cval(code.args[1]) == 'code'
                          or not is_lookup(code), 'M02.use', 'code',
                          'the code of a control is %s' % short(code),
                          ctx.where(n))
                for k in ('name', 'kind'):
                    if k not in d:
                        ctx.bad('M02.use', k, 'a control has no %s' % k,
                                ctx.where(n))
                        continue
                    inside = list(subterms(d[k]))
                    ctx.check(code in inside, 'M02.use', k,
                              'the %s of a control is not looked up by its '
                              'code' % k, ctx.where(n))
                if 'char' in d:
                    ctx.check(code in list(subterms(d['char'])), 'M02.use',
                              'char', 'the character of a control is not '
                              'its code', ctx.where(n))
    # the legal characters
    for n in g.nodes:
        if n.kind == 'branch' and n.get('cond') is not None and \
                n.cond.op == 'cmp' and n.cond.args[0] in ('in', 'not in') \
                and n.cond.args[2].op in ('tuple', 'list', 'set') and all(
                    is_const(x) for x in n.cond.args[2].args):
            vs = sorted(cval(x) for x in n.cond.args[2].args)
            if all(isinstance(v, int) for v in vs):
                ctx.check(set(vs) <= {9, 10, 13}, 'M02.use', 'legal chars',
                          'code %s is written as a character' % vs,
                          ctx.where(n))
            ctx.ok('M02.use', 'legal characters')


def is_lookup(t):
    return t.op == 'sub' and is_const(t.args[1])


C = 'hwp5/binmodel/controlchar.py'
P = 'hwp5/binmodel/tagid51_para_text.py'
witnesses = [
    ('kind', C, "0x09: ('TAB', INLINE)", "0x09: ('TAB', EXTENDED)"),
    ('kind2', C, "0x17: ('CTLCHR17', EXTENDED)", "0x17: ('CTLCHR17', INLINE)"),
    ('name', C, "0x1e: ('NONBREAK_SPACE', CHAR)", "0x1e: ('HYPHEN', CHAR)"),
    ('size', C, '''    class INLINE(object):
        size = 8''', '''    class INLINE(object):
        size = 4'''),
    ('missing', C, "             0x19: ('CTLCHR19', CHAR),\n", ''),
    ('pattern', C, "b'[\\x00-\\x1f]\\x00'", "b'[\\x01-\\x1f]\\x00'"),
    ('pattern2', C, "b'[\\x00-\\x1f]\\x00'", "b'[\\x00-\\x1f]'"),
    ('odd', C, 'if i & 1 == 1:', 'if i & 1 == 1 and i > 64:'),
    ('odd2', C, '                if i & 1 == 1:\n                    start_idx = i + 1\n                    continue\n', ''),
    ('restart', C, 'start_idx = i + 1', 'start_idx = i + 2'),
    ('restart2', C, 'start_idx = i + 1', 'start_idx = m.end()'),
    ('extent', C, 'return i, i + (size * 2)', 'return i, i + size + 1'),
    ('param', C, 'param = bytes[4:12]', 'param = bytes[2:12]'),
    ('param2', C, 'bytes = bytes[2:2 + 12]', 'bytes = bytes[4:4 + 12]'),
    ('chid', C, '''                chr(bytes[3]) +
                chr(bytes[2]) +
                chr(bytes[1]) +
                chr(bytes[0])''', '''                chr(bytes[0]) +
                chr(bytes[1]) +
                chr(bytes[2]) +
                chr(bytes[3])'''),
    ('tab', C, 'UINT8.decode(bytes[5:6])', 'UINT8.decode(bytes[4:5])'),
    ('chunk start', P, 'yield (idx // 2, ctrlpos // 2), text',
     'yield (idx // 2, ctrlpos_end // 2), text'),
    ('chunk text', P, 'bytes[idx:ctrlpos]', 'bytes[idx:ctrlpos_end]'),
    ('resume', P, 'idx = ctrlpos_end', 'idx = ctrlpos + 2'),
    ('lost text', P, 'if idx < ctrlpos:', 'if idx + 2 < ctrlpos:'),
    ('bytes', P, 'yield (idx // 2, ctrlpos // 2), text',
     'yield (idx, ctrlpos), text'),
    ('end', P, 'while idx < size:', 'while idx < size - 2:'),
    ('legal', 'hwp5/xmlmodel.py', 'if code in (0x9, 0xa, 0xd):',
     'if code in (0x9, 0xa, 0xc, 0xd):'),
    ('kind of', 'hwp5/xmlmodel.py', 'kind = ControlChar.kinds[uch]',
     'kind = ControlChar.EXTENDED'),
]
benign = [
    ('parity', C, 'if i & 1 == 1:', 'if i % 2 != 0:'),
    ('kinds', C, '    kinds = dict((unichr(code), kind) for code, '
     '(name, kind) in chars.items())',
     '    kinds = {unichr(code): entry[1] for code, entry in '
     'chars.items()}'),
    ('loop', P, '''        while idx < size:
            ctrlpos''', '''        while True:
            if idx >= size:
                break
            ctrlpos'''),
    ('half', P, 'yield (idx // 2, ctrlpos // 2), text',
     'yield (idx >> 1, ctrlpos >> 1), text'),
    ('helper', P, [('yield (idx // 2, ctrlpos // 2), text',
                    'yield span(idx, ctrlpos), text'),
                   ('class ParaTextChunks', '''def span(start, end):
    return start // 2, end // 2


class ParaTextChunks''')]),
    ('skip', P, '''            if idx < ctrlpos:
                text''', '''            if idx != ctrlpos:
                text'''),
    ('code', C, 'if ch == ControlChar.TAB:', 'if code == 0x09:'),
    ('slices', C, '''            bytes = bytes[2:2 + 12]
            if''', '''            bytes = bytes[2:14]
            if'''),
    ('else', C, '''                if i & 1 == 1:
                    start_idx = i + 1
                    continue
                if PY3:
                    char = unichr(data[i])
                else:
                    char = unichr(ord(data[i]))
                size = cls.kinds[char].size
                return i, i + (size * 2)
''', '''                if i & 1 == 0:
                    if PY3:
                        char = unichr(data[i])
                    else:
                        char = unichr(ord(data[i]))
                    return i, i + 2 * cls.kinds[char].size
                else:
                    start_idx = i + 1
                    continue
'''),
]
