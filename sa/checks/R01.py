# -*- coding: utf-8 -*-
"""R01 record header codec: bit-provenance analysis of decoder and encoder."""
from ..terms import T, Term, is_const, cval, show, subterms, canon
from ..bits import bits_of, expand, cond_bits, Bits, src_bits
from ..flow import facts_at, dominators, reachable

TECHNIQUE = 'bit-provenance dataflow over value-flow graphs'
LEVEL_NOTE = 'Every bit of tag, level and size is traced from source word to result on all paths of decoder and encoder; complete for these functions, assuming struct and the stream behave as documented.'
EXPLANATION = '''Bit-provenance dataflow over the value-flow graphs of the
record header decoder and encoder (repository helpers inlined): every bit of
every returned value is traced to a bit of the source word; branch conditions
are interpreted as constraints on source bits.'''

MOD = 'hwp5.recordstream'


def prim_fmt(t):
    """struct format of a Primitive(...) type term"""
    while t.op in ('gval', 'cval'):
        t = t.args[2]
    if t.op == 'res' and t.args[1].op == 'func' and \
            t.args[1].args[0].name == 'Primitive' and len(t.args[2]) >= 3:
        return cval(t.args[2][2])
    return None


FMT = {'<I': 32, '<L': 32, '<H': 16, '<B': 8, '<Q': 64, 'B': 8}


def read_word(t):
    """(format, stream term, size) when t is a word read from a stream"""
    if t.op == 'res' and t.args[1].op == 'attr' and \
            t.args[1].args[1] == 'read':
        f = prim_fmt(t.args[1].args[0])
        if f and t.args[2]:
            return f, t.args[2][0], t
    if t.op in ('item', 'sub'):
        u = t.args[0]
        idx = t.args[1] if t.op == 'item' else cval(t.args[1])
        if u.op == 'res' and u.args[1].op == 'ext' and \
                u.args[1].args[0] == 'struct.unpack' and idx == 0:
            fmt = cval(u.args[2][0])
            data = u.args[2][1]
            st = stream_read(data)
            if st and fmt in FMT and st[1] is not None and \
                    cval(st[1]) == FMT[fmt] // 8:
                return fmt, st[0], t
    if t.op == 'res' and t.args[1].op == 'ext' and \
            t.args[1].args[0] == 'builtins.int.from_bytes' and t.args[2]:
        st = stream_read(t.args[2][0])
        order = [cval(x) for x in t.args[2][1:]] + \
            [cval(v) for k, v in t.args[3] if k == 'byteorder']
        if st and order[:1] == ['little'] and is_const(st[1]):
            n = st[1].args[0]
            return {4: '<I', 2: '<H', 1: '<B'}.get(n), st[0], t
    return None


def stream_read(t):
    """(stream, size term) of a raw read"""
    if t.op == 'res':
        fn, args = t.args[1], t.args[2]
        if fn.op == 'func' and fn.args[0].name == 'readn' and len(args) == 2:
            return args[0], args[1]
        if fn.op == 'attr' and fn.args[1] == 'read' and len(args) == 1:
            return fn.args[0], args[0]
    return None


def word_width(t):
    r = read_word(t)
    if r:
        return FMT.get(r[0])
    return None


def inline(f, w):
    return f.name not in ('readn', 'Primitive', 'Flags', 'Enum')


def run(ctx):
    decode(ctx)
    encode(ctx)


def call_node(g, t):
    for n in g.nodes:
        if n.kind == 'call' and n.get('result') is t:
            return n
    return None


def decode(ctx):
    R = 'R01.decode'
    ctx.rule(R, 'decoder: tag = bits 0-9, level = bits 10-19, size = bits '
             '20-31 of one <I word, or a second <I word exactly when bits '
             '20-31 are all ones', 4)
    fi = ctx.need_func(MOD, 'decode_record_header')
    g = ctx.graph(fi, inline=inline)
    rets = [n for n in g.returns if n.value.op != 'const']
    if not rets:
        ctx.bad(R, fi.fullname, 'no header is ever returned', fi.node.lineno)
        return
    words = []
    cases = []
    dom = dominators(g)
    for n in rets:
        base = [(c, p) for c, p, b in facts_at(g, n.id, dom)]
        for conds, leaf in expand(n.value):
            cases.append((n, base + conds, leaf))
    for n, conds, leaf in cases:
        if is_const(leaf):
            continue
        if leaf.op not in ('tuple', 'list') or len(leaf.args) != 3:
            ctx.bad(R, fi.fullname, 'returned value is not (tag, level, '
                    'size): %s' % show(leaf), ctx.where(n))
            continue
        tag, level, size = leaf.args
        bt = bits_of(tag, word_width)
        src = sorted({x[0] for x in (bt.b if bt else ())
                      if isinstance(x, tuple)}, key=str)
        w = src[0] if len(src) == 1 else None
        rw = read_word(w) if w is not None else None
        ctx.check(w is not None and bt.b == [(w, i) for i in range(10)] and
                  rw[0] in ('<I', '<L'), R, 'tag bits',
                  'tag is %s, not bits 0-9 of a <I word' % show(tag),
                  ctx.where(n))
        if w is None:
            continue
        bl = bits_of(level, word_width)
        ctx.check(bl is not None and
                  bl.b == [(w, i) for i in range(10, 20)], R, 'level bits',
                  'level is %s, not bits 10-19' % show(level), ctx.where(n))
        bs = bits_of(size, word_width)
        sizebits = [(w, i) for i in range(20, 32)]
        cs = [cond_bits(c, p, word_width) for c, p in conds]
        if bs is not None and bs.b == sizebits:
            ctx.check(('notallones', frozenset(sizebits)) in cs, R,
                      'short size', 'the 12-bit size is returned although it '
                      'may be 0xfff: conditions %s' % fmt_conds(conds),
                      ctx.where(n))
        else:
            r2 = read_word(size)
            good = r2 is not None and size is not w and \
                r2[0] in ('<I', '<L')
            ctx.check(good, R, 'extended size',
                      'size is %s: neither bits 20-31 nor a second <I word'
                      % show(size), ctx.where(n))
            if good:
                ctx.check(('allones', frozenset(sizebits)) in cs, R,
                          'extended size condition',
                          'the extended size is used under %s' %
                          fmt_conds(conds), ctx.where(n))
                n1, n2 = src_node(g, w), src_node(g, size)
                if n1 is not None and n2 is not None:
                    after = reachable(g, [n1.id])
                    ctx.check(n2.id in after and
                              n1.id not in reachable(g, [n2.id]), R,
                              'order of words',
                              'the extended size word is not read after the '
                              'header word', ctx.where(n2))
                    f2 = [cond_bits(c, p, word_width)
                          for c, p, b in facts_at(g, n2.id, dom)]
                    ctx.check(('allones', frozenset(sizebits)) in f2, R,
                              'second word read only when needed',
                              'the second word is read under %s' % fmt_conds(
                                  [(c, p) for c, p, b in
                                   facts_at(g, n2.id, dom)]), ctx.where(n2))
    # number of words read on the way to any header
    reads = [n for n in g.nodes if n.kind == 'call' and n.get('result')
             is not None and (read_word(n.result) or
                              stream_read(n.result))]
    ctx.ok(R, '%d stream reads in the decoder' % len(reads))


def src_node(g, t):
    """graph node that reads the stream for word term t"""
    ids = {x for x in subterms(t) if x.op == 'res'}
    best = None
    for n in g.nodes:
        if n.kind == 'call' and n.get('result') in ids and (
                stream_read(n.result) or read_word(n.result)):
            if best is None or n.id > best.id:
                best = n
    return best


def fmt_conds(conds):
    return ' and '.join(('' if p else 'not ') + (show(c) if c is not None
                                                else '?')
                        for c, p in conds) or 'no condition'


def words_of(t):
    """flatten bytes built from struct.pack calls into [(fmt char, term)]"""
    if t.op == 'bin' and t.args[0] == '+':
        a, b = words_of(t.args[1]), words_of(t.args[2])
        if a is None or b is None:
            return None
        return a + b
    if is_const(t) and t.args[0] in (b'', ''):
        return []
    if t.op == 'pure' and t.args[0].op == 'attr' and \
            t.args[0].args[1] == 'join' and len(t.args[1]) == 1 and \
            t.args[1][0].op in ('list', 'tuple'):
        out = []
        for x in t.args[1][0].args:
            w = words_of(x)
            if w is None:
                return None
            out += w
        return out
    if t.op == 'res' and t.args[1].op == 'ext' and \
            t.args[1].args[0] == 'struct.pack' and t.args[2]:
        fmt = cval(t.args[2][0])
        if not isinstance(fmt, str) or not fmt.startswith('<'):
            return None
        body = fmt[1:]
        chars = ''
        i = 0
        while i < len(body):
            if body[i].isdigit():
                j = i
                while j < len(body) and body[j].isdigit():
                    j += 1
                if j >= len(body):
                    return None
                chars += body[j] * int(body[i:j])
                i = j + 1
            else:
                chars += body[i]
                i += 1
        vals = t.args[2][1:]
        if len(chars) != len(vals):
            return None
        return list(zip(chars, vals))
    return None


def encode(ctx):
    R = 'R01.encode'
    ctx.rule(R, 'encoder: one <I word tag | level << 10 | size << 20 when '
             'the payload is shorter than 0xfff, else the same with all size '
             'bits set followed by the length as a second <I word', 4)
    fi = ctx.need_func(MOD, 'encode_record_header')
    g = ctx.graph(fi, inline=inline)
    dom = dominators(g)
    rec = fi.params[0]

    def field(t, name):
        return t.op == 'sub' and t.args[0] is T('sym', rec) and \
            cval(t.args[1]) == name or \
            t.op == 'res' and t.args[1] is T('attr', T('sym', rec), 'get') \
            and t.args[2] and cval(t.args[2][0]) == name

    def is_len(t):
        return t.op == 'pure' and t.args[0] is T('ext', 'builtins.len') and \
            field(t.args[1][0], 'payload')

    def width(short):
        def f(t):
            if field(t, 'tagid') or field(t, 'level'):
                return 10
            if is_len(t):
                return 12 if short else 32
            return None
        return f
    seen = set()
    for n in g.returns:
        base = [(c, p) for c, p, b in facts_at(g, n.id, dom)]
        for conds, leaf in expand(n.value):
            conds = base + conds
            ws = words_of(leaf)
            if ws is None:
                # conditions inside the packed words
                exp = expand_pack(leaf)
                if exp is None:
                    ctx.bad(R, fi.fullname, 'cannot see which words are '
                            'written: %s' % show(leaf), ctx.where(n))
                    continue
            else:
                exp = expand_words(ws)
            for c2, ws2 in exp:
                one_case(ctx, R, g, n, conds + c2, ws2, field, is_len, width,
                         seen)
    for k in ('short', 'extended'):
        ctx.check(k in seen, R, '%s form written' % k,
                  'no %s header form is written' % k)


def expand_pack(leaf):
    return None


def expand_words(ws):
    """distribute ite inside word values"""
    out = [([], [])]
    for ch, v in ws:
        nxt = []
        for conds, acc in out:
            for c, x in expand(v):
                ok = True
                d = dict((a, p) for a, p in conds if a is not None)
                for a, p in c:
                    if a is not None and d.get(a, p) != p:
                        ok = False
                if ok:
                    nxt.append((conds + c, acc + [(ch, x)]))
        out = nxt
    return out


def size_case(conds, is_len):
    """'short' / 'extended' / None from comparisons of the payload length"""
    res = set()
    for c, p in conds:
        if c is None:
            continue
        while c.op == 'not':
            c, p = c.args[0], not p
        if c.op != 'cmp' or not is_len(c.args[1]) or not is_const(c.args[2]):
            continue
        op, v = c.args[0], c.args[2].args[0]
        if not p:
            op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=',
                  '!=': '=='}.get(op, op)
        if (op, v) in (('<', 0xfff), ('<=', 0xffe)):
            res.add('short')
        elif (op, v) in (('>=', 0xfff), ('>', 0xffe)):
            res.add('extended')
        else:
            res.add('?%s %s' % (op, v))
    return res


def clamped(t, is_len, short):
    """min(length, K) in one of the two cases of the length"""
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return tuple(clamped(x, is_len, short) for x in t)
        return t
    if t.op == 'pure' and t.args[0] is T('ext', 'builtins.min') and \
            len(t.args[1]) == 2:
        a, b = t.args[1]
        if is_const(a):
            a, b = b, a
        if is_len(a) and is_const(b) and type(b.args[0]) is int:
            if short and b.args[0] >= 0xffe:
                return a
            if not short and b.args[0] <= 0xfff:
                return b
    if is_len(t):
        return t
    args = tuple(clamped(x, is_len, short) for x in t.args)
    return t if args == t.args else T(t.op, *args)


def one_case(ctx, R, g, n, conds, ws, field, is_len, width, seen):
    kinds = size_case(conds, is_len)
    if kinds == {'short', 'extended'}:
        return      # infeasible combination of two identical tests
    if len(kinds) == 1:
        ws = [(c, clamped(v, is_len, kinds == {'short'})) for c, v in ws]
    if kinds == {'short'}:
        seen.add('short')
        wd = width(True)
        ok = len(ws) == 1 and ws[0][0] in 'IL'
        ctx.check(ok, R, 'short form is one word',
                  'words written: %s' % [(c, show(v)) for c, v in ws],
                  ctx.where(n))
        if ok:
            b = bits_of(ws[0][1], wd)
            ctx.check(layout_ok(b, field, is_len, False), R,
                      'short form bits', 'header word is %s' %
                      show(ws[0][1]), ctx.where(n))
    elif kinds == {'extended'}:
        seen.add('extended')
        wd = width(False)
        ok = len(ws) == 2 and all(c in 'IL' for c, v in ws)
        ctx.check(ok, R, 'extended form is two words',
                  'words written: %s' % [(c, show(v)) for c, v in ws],
                  ctx.where(n))
        if ok:
            b = bits_of(ws[0][1], wd)
            ctx.check(layout_ok(b, field, is_len, True), R,
                      'extended form bits', 'header word is %s' %
                      show(ws[0][1]), ctx.where(n))
            b = bits_of(ws[1][1], wd)
            ctx.check(b is not None and len(b.b) == 32 and all(
                isinstance(x, tuple) and is_len(x[0]) and x[1] == i
                for i, x in enumerate(b.b)), R, 'extended size word',
                'second word is %s, not the payload length' % show(ws[1][1]),
                ctx.where(n))
    else:
        ctx.bad(R, 'choice of form', 'the form of the header is chosen by %s,'
                ' not by payload length < 0xfff' % fmt_conds(conds),
                ctx.where(n))


def layout_ok(b, field, is_len, ext):
    if b is None:
        return False
    for i in range(max(32, len(b.b))):
        x = b.get(i)
        if i < 10:
            ok = isinstance(x, tuple) and field(x[0], 'tagid') and x[1] == i
        elif i < 20:
            ok = isinstance(x, tuple) and field(x[0], 'level') and \
                x[1] == i - 10
        elif i < 32:
            if ext:
                ok = x == 1 and not isinstance(x, tuple)
            else:
                ok = isinstance(x, tuple) and is_len(x[0]) and \
                    x[1] == i - 20
        else:
            ok = x == 0 and not isinstance(x, tuple)
        if not ok:
            return False
    return True


witnesses = [
    ('level shift', 'hwp5/recordstream.py', '(rechdr >> 10) & 0x3ff',
     '(rechdr >> 10) & 0x1ff'),
    ('ext threshold', 'hwp5/recordstream.py', 'if size == 0xfff:',
     'if size >= 0xffe:'),
    ('encode threshold', 'hwp5/recordstream.py', 'if size < 0xfff:',
     'if size <= 0xfff:'),
    ('encode shift', 'hwp5/recordstream.py',
     'hdr = (0xfff << 20) | (level << 10) | tagid',
     'hdr = (0xfff << 20) | (level << 11) | tagid'),
    ('encode swapped', 'hwp5/recordstream.py', "struct.pack('<II', hdr, size)",
     "struct.pack('<II', size, hdr)"),
    ('big endian', 'hwp5/recordstream.py', "struct.pack('<I', hdr)",
     "struct.pack('>I', hdr)"),
]
