# -*- coding: utf-8 -*-
"""S04 compressed streams are raw deflate data, complete in both directions."""
from ..terms import T, Term, is_const, cval, const, subterms, alternatives
from ..cases import walk, feasible, value
from ..flow import dominators, facts_at
from ._util import (short, fn_args, norm_facts, refine, cmp_pairs, is_none,
                    names_of_types, passes_through, term_values)

TECHNIQUE = ('dataflow over the inlined readers and codecs: window-bits '
             'arguments, the way of every chunk read through the '
             'decompressor into the result, must-flush before the end, and '
             'buffer conservation, on path-refined flow graphs')
LEVEL_NOTE = ('zlib itself is trusted; that a stream whose data is not '
              'deflated is passed through as it is (issue 176) is part of '
              'the behaviour.')
EXPLANATION = '''Every reader and codec of compressed data is inlined into one
flow graph per use. Every decompressor must be created for raw deflate data;
every chunk that was read must be given to it, its result must reach the
buffer or the returned data, the end of the data may only be reported after
the decompressor was flushed into the result, flushing may only happen where
the input is known to be exhausted, and what a read takes from the buffer and
leaves in it must be complementary. The encoders are followed over sequences
of calls, their output must be the zlib output without header and
checksum, also after reset().'''

INFLATE = ('zlib.decompress', 'zlib.decompressobj')

READERS = [
    ('document stream', 'from hwp5.filestructure import CompressedStream\n'
     'def q(item):\n    return CompressedStream(item).open()\n'),
    ('decompress', 'from hwp5.compressed import decompress\n'
     'def q(fp):\n    return decompress(fp)\n'),
    ('sized read, generator', 'from hwp5.compressed import '
     'decompress_experimental\ndef q(fp, size):\n'
     '    return decompress_experimental(fp).read(size)\n'),
    ('chunks', 'from hwp5.compressed import decompress_gen\n'
     'def q(fp):\n    for x in decompress_gen(fp):\n        yield x\n'),
    ('sized read, codec', 'from hwp5.zlib_raw_codec import StreamReader\n'
     'def q(fp, size):\n    r = StreamReader(fp)\n    return r.read(size)\n'),
    ('full read, codec', 'from hwp5.zlib_raw_codec import StreamReader\n'
     'def q(fp):\n    r = StreamReader(fp)\n    return r.read()\n'),
]
# what one read leaves in the buffer, the next one delivers
RESTS = [
    ('sized read, then the rest, codec',
     'from hwp5.zlib_raw_codec import StreamReader\n'
     'def q(fp, size):\n    r = StreamReader(fp)\n    r.read(size)\n'
     '    return r.read()\n'),
    ('sized read, then the rest, generator',
     'from hwp5.compressed import decompress_experimental\n'
     'def q(fp, size):\n    r = decompress_experimental(fp)\n'
     '    r.read(size)\n    return r.read()\n'),
]
CODEC = 'from hwp5.zlib_raw_codec import *\n'
CALLS = [
    ('zlib_raw_decode', 'from hwp5.zlib_raw_codec import zlib_raw_decode\n'
     'def q(data):\n    return zlib_raw_decode(data)[0]\n', 'inflate', 1),
]


def run(ctx):
    ctx.rule('S04.raw', 'every decompressor is created for raw deflate data '
             'with the full window', 3)
    ctx.rule('S04.input', 'every chunk read is given to the decompressor, '
             'unchanged and in the order read', 2)
    ctx.rule('S04.output', 'what the decompressor gives back reaches the '
             'buffer or the result', 3)
    ctx.rule('S04.flush', 'the end of the data is reported only after the '
             'decompressor was flushed into the result, which happens only '
             'at the end of the input', 2)
    ctx.rule('S04.buffer', 'the data taken from a buffer and the data left '
             'in it are complementary', 1)
    ctx.rule('S04.encode', 'encoders deliver zlib data without header and '
             'checksum', 2)
    ctx.rule('S04.reset', 'reset() makes a codec start anew', 1)
    seen = set()
    for name, text in READERS:
        g = try_query(ctx, text)
        if g is not None:
            reader(ctx, name, g)
            seen |= sites(g)
            if name == 'sized read, codec':
                enough(ctx, name, g)
    for name, text in RESTS:
        g = try_query(ctx, text)
        if g is not None:
            rest(ctx, name, g)
    direct(ctx, seen)
    encoders(ctx, seen)
    others(ctx, seen)
    rawunz(ctx)


def try_query(ctx, text):
    """None if the names of the query do not exist (any more)"""
    for line in text.splitlines():
        if line.startswith('from '):
            mod, name = line[5:].split(' import ')
            m = ctx.prog.modules.get(mod)
            if m is None or name not in m.bindings:
                return None
    return refine(ctx.query(text, inline=lambda f, w: True))


def zcall(n):
    if n.kind != 'call':
        return None
    fn = n.fn
    return fn.args[0] if fn.op == 'ext' and isinstance(
        fn.args[0], str) and fn.args[0].startswith('zlib.') else None


def sites(g):
    return {n.loc for n in g.nodes if zcall(n)}


def arg(n, i, name):
    kw = dict((k, v) for k, v in (n.get('kw') or ()))
    return kw.get(name) if name in kw else (
        n.args[i] if len(n.args) > i else None)


def raw_window(n):
    w = arg(n, 1 if zcall(n) == 'zlib.decompress' else 0, 'wbits')
    return w is not None and number(w) == -15, w


def number(t):
    if t is T('ext', 'zlib.MAX_WBITS'):
        return 15
    if t.op == 'un' and t.args[0] == '-':
        v = number(t.args[1])
        return -v if type(v) is int else None
    return cval(t)


def check_raw(ctx, name, n):
    ok, w = raw_window(n)
    ctx.check(ok, 'S04.raw', '%s: %s' % (name, zcall(n)),
              'the decompressor is created with window bits %s, so that it '
              'does not read raw deflate data' % (
                  short(w) if w is not None else 'of zlib data'),
              ctx.where(n))


def is_res_of(t, pred):
    return t.op == 'res' and pred(t.args[1])


def zobj(t):
    """t is a decompression object"""
    return is_res_of(t, lambda f: f is T('ext', 'zlib.decompressobj'))


def obj_call(n, name):
    return n.kind == 'call' and n.fn.op == 'attr' and n.fn.args[1] == name \
        and zobj(n.fn.args[0])


def input_read(n):
    """n reads the compressed stream"""
    return n.kind == 'call' and n.fn.op == 'attr' and \
        n.fn.args[1] == 'read' and n.get('result') is not None and \
        stream(n.fn.args[0])


def stream(t):
    if t.op == 'sym':
        return True
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'attr' and fn.args[1] == 'open' and \
        stream(fn.args[0])


def whole(n):
    return not n.args or is_none(n.args[0]) or cval(n.args[0]) == -1


def ended(facts, n):
    """the facts imply that the input is exhausted after read n"""
    if whole(n):
        return True
    size = n.args[0]
    for c, p in norm_facts(facts):
        if c is n.result and not p:
            return True
        if c.op in ('pure', 'res') and not p and is_len(c, n.result):
            return True
    for op, a, b in cmp_pairs(facts):
        if is_len(a, n.result):
            if op == '<' and (b is size or num(b) and num(size) and
                              cval(b) <= cval(size)):
                return True
            if op == '!=' and b is size:
                return True
            if op in ('==', '<=') and cval(b) == 0 or \
                    op == '<' and cval(b) == 1:
                return True
        if a is n.result and op == '==' and is_const(b) and not cval(b):
            return True
    return False


def num(t):
    return type(cval(t)) is int


def is_len(t, x):
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'ext' and \
        fn.args[0] == 'builtins.len' and a and a[0] is x


def holds(n, t):
    return any(t in set(subterms(v)) for v in term_values(n))


def sink(n, t):
    """n puts t into a buffer or delivers it"""
    if n.kind in ('setattr', 'yield', 'exit-return'):
        return any(t in set(subterms(v)) for v in
                   [n.get('value')] if isinstance(v, Term))
    return False


def slots(g):
    return [n for n in g.nodes if n.kind == 'setattr']


def reader(ctx, name, g):
    dom = dominators(g)
    reads = [n for n in g.nodes if input_read(n)]
    whole_calls = [n for n in g.nodes if zcall(n) == 'zlib.decompress']
    feeds = [n for n in g.nodes if obj_call(n, 'decompress')]
    flushes = [n for n in g.nodes if obj_call(n, 'flush')]
    for n in g.nodes:
        if zcall(n) in INFLATE:
            check_raw(ctx, name, n)
    rets = [n for n in g.nodes if n.kind == 'exit-return']
    if not reads and any(
            n.kind == 'call' and n.fn.op == 'ext' and
            n.fn.args[0] == 'builtins.next' and n.args and
            any(x.op == 'gencall' for x in subterms(n.args[0]))
            for n in g.nodes):
        return      # the generator is advanced by hand: not followed
    if not reads:
        ctx.bad('S04.input', name, 'nothing is read from the stream')
        return
    if not (whole_calls or feeds):
        ctx.bad('S04.input', name, 'what is read is not decompressed')
        return
    lazily = lambda r: any(  # noqa
        s.op == 'gencall' for s in subterms(r.get('value') or const(None)))
    takers = whole_calls + feeds
    # data that turned out not to be deflated is handed on as it is
    asis = {h.id for h in g.nodes if h.kind == 'handler' and
            set(names_of_types(h.types)) <= {'zlib.error', 'error'}}
    # input
    for n in reads:
        users = {m.id for m in takers if m.args and m.args[0] is n.result}
        nexts = {m.id for m in reads} | {r.id for r in rets}
        lost = []
        if not whole(n) or feeds:
            for x in passes_through(g, [y for y, l in n.succ if l == 'next'],
                                    nexts, users):
                if not lazily(g.nodes[x]):
                    lost.append(x)
        else:
            lost = passes_through(g, [y for y, l in n.succ if l == 'next'],
                                  nexts, users)
        if lost and not whole(n):
            # known to be empty is not lost
            lost = [x for x in lost if not empty_way(g, n, x, users)]
        if lost and whole(n):
            lost = [x for x in lost if not empty_way(g, n, x, users)]
        ctx.check(not lost, 'S04.input', '%s: %s' % (name, short(n.result)),
                  'data that was read is not given to the decompressor',
                  ctx.where(n))
    for m in takers:
        a = m.args[0] if m.args else const(None)
        ok = any(a is n.result for n in reads) or \
            is_const(a) and cval(a) == b''
        ctx.check(ok, 'S04.input', '%s: argument of %s' % (
            name, short(m.fn)), 'the decompressor is given %s' % short(a),
            ctx.where(m))
        if m in whole_calls:
            src = [n for n in reads if a is n.result]
            ctx.check(all(whole(n) for n in src), 'S04.input',
                      '%s: the whole stream' % name, 'only a part of the '
                      'stream (%s) is decompressed' % short(a), ctx.where(m))
    # output
    for m in takers + flushes:
        if m.get('result') is None:
            ctx.bad('S04.output', '%s: %s' % (name, short(m.fn)),
                    'what the decompressor gives is not used', ctx.where(m))
            continue
        via = {n.id for n in g.nodes if sink(n, m.result)} | asis
        stop = {r.id for r in rets} | {n.id for n in takers}
        lost = feasible(g, [y for y, l in m.succ if l == 'next'], stop,
                        via)
        ctx.check(not lost, 'S04.output', '%s: %s' % (name, short(m.fn)),
                  'what the decompressor gives back is dropped',
                  ctx.where(m))
    # the end
    fl = {n.id for n in flushes}
    if feeds:
        for r in rets:
            v = r.get('value')
            if lazily(r) or v is None or takes_slice(v):
                continue
            bad = feasible(g, [g.entry], {r.id}, fl | asis)
            ctx.check(not bad, 'S04.flush', '%s: end' % name,
                      'the end is reported although the decompressor may '
                      'hold more data', ctx.where(r))
        for n in flushes:
            facts = [(c, p) for c, p, b in facts_at(g, n.id, dom)]
            rs = [r for r in reads if passes_through(
                g, [y for y, l in r.succ if l == 'next'], {n.id},
                {x.id for x in reads})]
            ok = bool(rs) and all(ended(facts, r) for r in rs)
            ctx.check(ok, 'S04.flush', '%s: flush' % name,
                      'the decompressor is finished although the input may '
                      'go on', ctx.where(n))
    for h in g.nodes:
        if h.kind == 'handler' and \
                any(x in INFLATE or True for x in names_of_types(h.types)) \
                and {s for lst in h.sources for s, l in lst} & \
                {n.id for n in whole_calls + feeds}:
            ctx.check(set(names_of_types(h.types)) <= {'zlib.error',
                                                       'error'},
                      'S04.output', '%s: failing decompression' % name,
                      'any failure (%s) turns the data into undecoded data'
                      % ', '.join(names_of_types(h.types)), ctx.where(h))
    # buffers
    for lv, (init, vals) in g.loopvars.items():
        if lv.args[1] == 'buffer' or any(
                lv in set(subterms(r.value)) for r in rets
                if isinstance(r.get('value'), Term)):
            fills = {x for v in vals if isinstance(v, Term)
                     for x in subterms(v)}
            if not any(m.get('result') in fills for m in takers + flushes):
                continue
            for v in vals:
                if not isinstance(v, Term):
                    continue
                for a in alternatives(v):
                    ctx.check(lv in set(subterms(a)), 'S04.buffer',
                              '%s: %s in the loop' % (name, lv.args[1]),
                              'the buffer is replaced by %s' % short(a))
    for r in rets:
        for v, given in choices(r.value):
            s = takes_slice(v)
            if s is None:
                continue
            rest = under(last_store(g, dom, r, s[0]), given)
            ok = rest is not None and rest.op == 'sub' and \
                rest.args[0] is s[0] and rest.args[1].op == 'slice' and \
                same(rest.args[1].args[0], s[1]) and \
                is_none(rest.args[1].args[1])
            ctx.check(ok, 'S04.buffer', '%s: %s' % (name, short(v)),
                      'after %s is delivered, %s is kept' % (
                          short(v), short(rest) if rest is not None
                          else 'something else'), ctx.where(r))


def rest(ctx, name, g):
    """what is put back into the buffer by a sized read is part of what is
    delivered by the read that follows"""
    for n in g.nodes:
        v = n.get('value')
        if n.kind != 'setattr' or not isinstance(v, Term):
            continue
        for x, _given in choices(v):
            if x.op != 'sub' or x.args[1].op != 'slice' or \
                    is_none(x.args[1].args[0]) or is_const(
                        x.args[1].args[0]):
                continue
            ends = [g.nodes[i] for i in walk(g, [n.id], lambda c: None)
                    if g.nodes[i].kind == 'exit-return']
            ends = [r for r in ends if isinstance(r.get('value'), Term)]
            if not ends or any(s.op == 'gencall' for r in ends
                               for s in subterms(r.value)) and not any(
                                   x in set(subterms(r.value))
                                   for r in ends):
                continue
            ctx.check(any(x in set(subterms(r.value)) or any(
                s.op == 'phi'
                for s in subterms(r.value)) for r in ends),
                'S04.buffer', '%s: what was left' % name,
                '%s is left in the buffer and is not delivered by the next '
                'read' % short(x), ctx.where(n))


def enough(ctx, name, g):
    """a sized read delivers less than asked for only at the end"""
    flushes = {n.id for n in g.nodes if obj_call(n, 'flush')}
    if not flushes:
        return
    for r in g.nodes:
        if r.kind != 'exit-return' or not isinstance(r.get('value'), Term):
            continue
        for v, given in choices(r.value):
            s = takes_slice(v)
            if s is None or s[1].op != 'sym':
                continue
            size = s[1]
            if any(x.op == 'attr' and x.args[1] == 'flush'
                   for x in subterms(v)):
                continue        # may be all that there is

            def ev(c, size=size):
                # what is in the buffer is less than what is asked for
                if c.op != 'cmp':
                    return None
                op, a, b = c.args
                for op, a, b in ((op, a, b), (FLIPPED.get(op), b, a)):
                    if a is not size or op is None:
                        continue
                    if is_const(b) and type(cval(b)) is int and \
                            cval(b) <= 0:
                        return {'<': False, '<=': False, '>': True,
                                '>=': cval(b) <= 0, '==': False,
                                '!=': True}.get(op)
                    fn, _a = fn_args(b)
                    if fn is not None and fn is T('ext', 'builtins.len'):
                        return {'<': False, '<=': False, '>': True,
                                '>=': True, '==': False,
                                '!=': True}.get(op)
                if op in ('is', 'is not') and size in c.args[1:]:
                    return op == 'is not'
                return None
            if any(value(c, ev) is (not p) for c, p in given):
                continue
            seen = walk(g, [g.entry], ev, stops=flushes)
            ctx.check(r.id not in seen, 'S04.buffer', '%s: %s' % (
                name, short(v)), 'a read delivers less than it was asked '
                'for although there is more', ctx.where(r))


def same(a, b):
    return a is b


def empty_way(g, n, x, users):
    """no feasible way to x avoids the takers unless nothing was read"""
    def empty(c):
        if c is n.result:
            return True
        if is_len(c, n.result):
            return True
        if c.op == 'cmp':
            op, a, b = c.args
            for op, a, b in ((op, a, b), (FLIPPED.get(op), b, a)):
                if is_len(a, n.result) and type(cval(b)) is int and op:
                    return {'<': 1 < cval(b), '<=': 1 <= cval(b),
                            '>': 1 > cval(b), '>=': 1 >= cval(b),
                            '==': 1 == cval(b), '!=': 1 != cval(b)}.get(op)
                if a is n.result and is_const(b) and not cval(b):
                    return {'==': False, '!=': True}.get(op)
        return None
    seen = walk(g, [y for y, l in n.succ if l == 'next'], empty,
                stops=users)
    return x not in seen


FLIPPED = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==',
           '!=': '!='}


def choices(v, given=()):
    """(alternative of v, the tests that select it)"""
    if isinstance(v, Term) and v.op == 'ite':
        return choices(v.args[1], given + ((v.args[0], True),)) + \
            choices(v.args[2], given + ((v.args[0], False),))
    return [(v, given)]


def under(v, given):
    """v where the tests are decided"""
    while isinstance(v, Term) and v.op == 'ite':
        for c, p in given:
            if c is v.args[0]:
                v = v.args[1 if p else 2]
                break
        else:
            break
    return v


def takes_slice(v):
    """(buffer, size) if v is buffer[:size]"""
    if v.op == 'sub' and v.args[1].op == 'slice' and \
            (is_none(v.args[1].args[0]) or cval(v.args[1].args[0]) == 0) and \
            not is_none(v.args[1].args[1]):
        return v.args[0], v.args[1].args[1]
    return None


def last_store(g, dom, r, base):
    """value of the last attribute store before r that concerns the buffer"""
    st, seen, out = [r.id], set(), set()
    while st:
        x = st.pop()
        for y, l in g.nodes[x].pred:
            if y in seen:
                continue
            seen.add(y)
            m = g.nodes[y]
            v = m.get('value')
            if m.kind == 'setattr' and isinstance(v, Term) and (
                    base in set(subterms(v)) and not has_len(v) or
                    cval(v) in (b'', '') and is_const(v)):
                out.add(v)
            else:
                st.append(y)
    return out.pop() if len(out) == 1 else None


def has_len(v):
    """a position, not data"""
    return v.op == 'bin' and v.op == '+' or any(
        x.op in ('pure', 'res') and fn_args(x)[0] is T('ext', 'builtins.len')
        for x in [v] + [y for y in v.args if isinstance(y, Term)])


# -- decoders and encoders as sequences of calls ------------------------------

def cat(t):
    """t as a concatenation of non-empty pieces"""
    if t.op == 'bin' and t.args[0] == '+':
        return cat(t.args[1]) + cat(t.args[2])
    fn, a = fn_args(t)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'join' and a and \
            a[0].op in ('list', 'tuple') and cval(fn.args[0]) == b'':
        return [y for x in a[0].args for y in cat(x)]
    if is_const(t) and cval(t) in (b'', ''):
        return []
    return [t]


def values(g):
    for n in g.nodes:
        if n.kind == 'exit-return' and isinstance(n.get('value'), Term):
            for v in alternatives(n.value):
                yield n, v


def direct(ctx, seen):
    g = try_query(ctx, CALLS[0][1])
    if g is not None:
        seen |= sites(g)
        for n in g.nodes:
            if zcall(n) in INFLATE:
                check_raw(ctx, 'zlib_raw_decode', n)
        for n, v in values(g):
            ps = cat(v)
            ok = len(ps) == 1 and fn_args(ps[0])[0] is \
                T('ext', 'zlib.decompress') and \
                fn_args(ps[0])[1][0] is T('sym', 'data') or \
                fed(ps, ['data'])
            ctx.check(ok, 'S04.output', 'zlib_raw_decode', 'delivers %s' %
                      short(v), ctx.where(n))
    for cls, mod in (('IncrementalDecoder', 'hwp5.zlib_raw_codec'),
                     ('ZLibIncrementalDecoder', 'hwp5.compressed')):
        init = 'wbits=-15' if cls.startswith('Z') else ''
        head = 'from %s import %s\ndef q(a, b):\n    d = %s(%s)\n' % (
            mod, cls, cls, init)
        for what, body, feed in (
                ('one call', '    return d.decode(a, True)\n', ['a']),
                ('two calls', '    x = d.decode(a)\n'
                 '    return x + d.decode(b, True)\n', ['a', 'b']),
                ('reset', '    x = d.decode(a, True)\n    d.reset()\n'
                 '    return d.decode(b, True)\n', ['b'])):
            g = try_query(ctx, head + body)
            if g is None:
                continue
            seen |= sites(g)
            for n in g.nodes:
                if zcall(n) in INFLATE:
                    check_raw(ctx, '%s %s' % (cls, what), n)
            R = 'S04.reset' if what == 'reset' else 'S04.output'
            for n, v in values(g):
                facts = [(c, p) for c, p, b in
                         facts_at(g, n.id, dominators(g))]
                ok = fed(cat(v), feed, facts)
                if what == 'reset' and ok:
                    # not the object that was used before
                    used = {m.fn.args[0] for m in g.nodes
                            if obj_call(m, 'decompress') and m.args and
                            m.args[0] is T('sym', 'a')}
                    ok = not any(x.op == 'res' and
                                 x.args[1].args[0] in used for x in cat(v)
                                 if x.op == 'res' and
                                 x.args[1].op == 'attr')
                ctx.check(ok, R, '%s %s' % (cls, what),
                          'delivers %s' % short(v), ctx.where(n))


def fed(ps, names, facts=()):
    """ps are the outputs for the inputs and a flush of one object"""
    empty = set()
    for c, p in norm_facts(facts):
        for nm in names:
            s = T('sym', nm)
            if not p and (c is s or is_len(c, s)):
                empty.add(s)
    for op, a, b in cmp_pairs(facts):
        for nm in names:
            s = T('sym', nm)
            if is_len(a, s) and (op in ('==', '<=') and cval(b) == 0 or
                                 op == '<' and cval(b) == 1):
                empty.add(s)
    want = [('decompress', T('sym', n)) for n in names]
    if not ps or any(p.op != 'res' or p.args[1].op != 'attr' or
                     not zobj(p.args[1].args[0]) for p in ps):
        return False
    if len({p.args[1].args[0] for p in ps}) != 1:
        return False
    got = [(p.args[1].args[1], p.args[2][0] if p.args[2] else None)
           for p in ps]
    opt = [w for w in want if w[1] not in empty or w in got]
    return got == opt + [('flush', None)]


def encoders(ctx, seen):
    g = try_query(ctx, 'from hwp5.zlib_raw_codec import zlib_raw_encode\n'
                  'def q(data):\n    return zlib_raw_encode(data)[0]\n')
    if g is not None:
        seen |= sites(g)
        for n, v in values(g):
            ctx.check(stripped(g, [v], ['data']), 'S04.encode',
                      'zlib_raw_encode', 'delivers %s' % short(v),
                      ctx.where(n))
    head = 'from hwp5.zlib_raw_codec import IncrementalEncoder\n' \
        'def q(a, b):\n    e = IncrementalEncoder()\n'
    for what, body, feed in (
            ('one call', '    return e.encode(a, True)\n', ['a']),
            ('two calls', '    x = e.encode(a)\n'
             '    return x + e.encode(b, True)\n', ['a', 'b']),
            ('reset', '    x = e.encode(a, True)\n    e.reset()\n'
             '    return e.encode(b, True)\n', ['b']),
            ('reset in between', '    x = e.encode(a)\n    e.reset()\n'
             '    return e.encode(b, True)\n', ['b'])):
        g = try_query(ctx, head + body)
        if g is None:
            continue
        seen |= sites(g)
        for n, v in values(g):
            ctx.check(stripped(g, cat(v), feed),
                      'S04.reset' if 'reset' in what else 'S04.encode',
                      'IncrementalEncoder, %s' % what, 'delivers %s' %
                      short(v), ctx.where(n))


def cut(p):
    """(data, cut in front, cut at the end)"""
    front = back = 0
    while p.op == 'sub' and p.args[1].op == 'slice':
        lo, hi = p.args[1].args[0], p.args[1].args[1]
        if not (is_none(lo) or type(cval(lo)) is int and cval(lo) >= 0) or \
                not (is_none(hi) or type(cval(hi)) is int and cval(hi) < 0):
            return p, None, None
        front += cval(lo) or 0
        back -= cval(hi) or 0
        p = p.args[0]
    return p, front, back


def stripped(g, ps, names):
    """ps are the zlib outputs for the inputs, without the two bytes in front
    and the four at the end (or of a raw compressor)"""
    cs = [cut(p) for p in ps]
    if len(cs) == 1 and fn_args(cs[0][0])[0] is T('ext', 'zlib.compress'):
        a = fn_args(cs[0][0])[1]
        kw = cs[0][0].args[3] if cs[0][0].op == 'res' else ()
        wb = dict(kw).get('wbits') or (a[2] if len(a) > 2 else None)
        raw = wb is not None and number(wb) == -15
        return len(names) == 1 and a[0] is T('sym', names[0]) and \
            cs[0][1:] == ((0, 0) if raw else (2, 4))
    if not cs or any(c[0].op != 'res' or c[0].args[1].op != 'attr' or
                     not is_res_of(c[0].args[1].args[0], lambda f: f is
                                   T('ext', 'zlib.compressobj'))
                     for c in cs):
        return False
    objs = {c[0].args[1].args[0] for c in cs}
    if len(objs) != 1:
        return False
    obj = objs.pop()
    wb = dict(obj.args[3]).get('wbits') if len(obj.args) > 3 else None
    if wb is None and len(obj.args[2]) > 2:
        wb = obj.args[2][2]
    raw = wb is not None and number(wb) == -15
    # nothing else was given to this object
    for n in g.nodes:
        if n.kind == 'call' and n.fn.op == 'attr' and n.fn.args[0] is obj \
                and not any(n.result is c[0] for c in cs):
            return False
    got = [(c[0].args[1].args[1], c[0].args[2][0] if c[0].args[2] else None)
           for c in cs]
    cuts = [c[1:] for c in cs]
    want = [('compress', T('sym', x)) for x in names] + [('flush', None)]
    if got != want:
        return False
    if raw:
        return all(c == (0, 0) for c in cuts)
    return cuts[0] == (2, 0) and cuts[-1] == (0, 4) and \
        all(c == (0, 0) for c in cuts[1:-1])


def others(ctx, seen):
    """decompressors nobody reached so far"""
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        for n in g.nodes:
            if zcall(n) in INFLATE and n.loc not in seen:
                w = arg(n, 1 if zcall(n) == 'zlib.decompress' else 0,
                        'wbits')
                ctx.check(w is not None and number(w) in (None, -15),
                          'S04.raw', '%s: %s' % (f.fullname, zcall(n)),
                          'the decompressor is created with window bits %s'
                          % (short(w) if w is not None else 'of zlib data'),
                          ctx.where(n))


def rawunz(ctx):
    m = ctx.prog.modules.get('hwp5.proc.rawunz')
    if m is None or 'main' not in m.bindings:
        return
    g = refine(ctx.query('from hwp5.proc.rawunz import main\n'
                         'def q(args):\n    return main(args)\n',
                         inline=lambda f, w: f.module is m))
    mods = ('hwp5.zlib_raw_codec', 'hwp5.compressed')

    def inflating(t):
        for x in subterms(t):
            if x.op == 'inst' and getattr(x.args[0], 'module', None) and \
                    x.args[0].module.name in mods:
                return True
            fn, a = fn_args(x)
            if fn is not None and (
                    fn.op == 'func' and fn.args[0].module.name in mods or
                    fn.op == 'ext' and fn.args[0].startswith('zlib.')):
                return True
            if x.op == 'gencall' and x.args[0].module.name in mods:
                return True
        return False
    ok = any(inflating(t) for n in g.nodes if n.kind == 'call'
             for a in n.args for t in [a])
    ctx.check(ok, 'S04.output', 'hwp5proc rawunz',
              'the inflated data is not copied to the output')


W = 'hwp5/compressed.py'
Z = 'hwp5/zlib_raw_codec.py'
witnesses = [
    ('less than asked for', 'hwp5/zlib_raw_codec.py',
     "            if size <= len(self.buffer):",
     "            if self.buffer:"),
    ('what was left is lost', 'hwp5/zlib_raw_codec.py',
     "            d = self.buffer + self.decoder.decode(c, True)\n",
     "            d = self.decoder.decode(c, True)\n"),
    ('rawunz', 'hwp5/proc/rawunz.py', 'shutil.copyfileobj(stream, output_fp)',
     'shutil.copyfileobj(input_fp, output_fp)'),
    ('zlib data', W, 'zlib.decompress(compressed_maybe, -15)',
     'zlib.decompress(compressed_maybe)'),
    ('window', Z, '_wbits = -15', '_wbits = -12'),
    ('gzip', W, 'dec = ZLibIncrementalDecoder(wbits=-15)',
     'dec = ZLibIncrementalDecoder()'),
    ('first part', W, 'compressed_maybe = stream.read()',
     'compressed_maybe = stream.read(1 << 24)'),
    ('any failure', W, 'except zlib.error:', 'except Exception:'),
    ('no flush', W, '''        if final:
            c += self.decompressobj.flush()
''', ''),
    ('flush lost', W, 'c += self.decompressobj.flush()',
     'self.decompressobj.flush()'),
    ('last chunk', W, '''        if len(input) < bufsize:
            exausted = True
''', '''        if len(input) < bufsize:
            break
'''),
    ('early end', Z, 'final = len(c) == 0', 'final = len(c) <= 8196'),
    ('early end 2', Z, 'final = len(c) == 0',
     'final = len(c) < 8196 or len(c)'),
    ('rest lost', Z, 'self.buffer = self.buffer[size:]',
     "self.buffer = b''"),
    ('rest shifted', Z, 'self.buffer = self.buffer[size:]',
     'self.buffer = self.buffer[size + 1:]'),
    ('buffer replaced', Z, '            self.buffer += '
     'self.decoder.decode(c, final)', '            self.buffer = '
     'self.decoder.decode(c, final)'),
    ('input changed', Z, '            self.buffer += self.decoder.decode(c, '
     'final)', '            if c:\n                self.buffer += '
     'self.decoder.decode(c[1:], final)'),
    ('final ignored', Z, '''            return d + self.decompressobj.flush()
''', '''            return d
'''),
    ('checksum kept', Z, 'zlib.compress(input)[2:-4]',
     'zlib.compress(input)[2:]'),
    ('header kept', Z, '            self.initial = False\n', ''),
    ('reset', Z, '''    def reset(self):
        self.compressobj = zlib.compressobj()
        self.initial = True
''', '''    def reset(self):
        self.compressobj = zlib.compressobj()
'''),
    ('no reset', Z, '''    def reset(self):
        self.decompressobj = zlib.decompressobj(_wbits)
''', '''    def reset(self):
        pass
'''),
    ('generator rest', 'hwp5/utils.py', '''            self.buffer += data
            bufsize = len(self.buffer)
            if bufsize >= size:
                size = min(bufsize, size)
                d, self.buffer = self.buffer[:size], self.buffer[size:]
                return d

        d, self.buffer = self.buffer, b\'\'
''', '''            self.buffer += data
            bufsize = len(self.buffer)
            if bufsize >= size:
                d, self.buffer = self.buffer[:size], data[size:]
                return d

        d, self.buffer = self.buffer, b\'\'
'''),
]
benign = [
    ('the other way around', 'hwp5/zlib_raw_codec.py',
     "            if size <= len(self.buffer):",
     "            if not len(self.buffer) < size:"),
    ('left in a variable', 'hwp5/zlib_raw_codec.py',
     "            d = self.buffer + self.decoder.decode(c, True)\n",
     "            left = self.buffer\n"
     "            d = b''.join([left, self.decoder.decode(c, True)])\n"),
    ('pieces', 'hwp5/zlib_raw_codec.py',
     "            if size <= len(self.buffer):\n",
     "            enough = len(self.buffer) >= size\n"
     "            if enough:\n"),
    ('keyword', W, 'zlib.decompress(compressed_maybe, -15)',
     'zlib.decompress(compressed_maybe, wbits=-zlib.MAX_WBITS)'),
    ('object', W, '''        decompressed = zlib.decompress(compressed_maybe, -15)  # without gzip header
''', '''        inflater = zlib.decompressobj(-15)
        decompressed = inflater.decompress(compressed_maybe)
        decompressed += inflater.flush()
'''),
    ('loop', W, '''    exausted = False
    while not exausted:
        input = source.read(bufsize)
        if len(input) < bufsize:
            exausted = True
        yield dec.decode(input, exausted)
''', '''    while True:
        input = source.read(bufsize)
        last = len(input) < bufsize
        yield dec.decode(input, last)
        if last:
            return
'''),
    ('loop until empty', W, '''    exausted = False
    while not exausted:
        input = source.read(bufsize)
        if len(input) < bufsize:
            exausted = True
        yield dec.decode(input, exausted)
''', '''    while True:
        input = source.read(bufsize)
        if not input:
            break
        yield dec.decode(input)
    yield dec.decode(b\'\', True)
'''),
    ('raw compressor', Z, '''    output = zlib.compress(input)[2:-4]
''', '''    whole = zlib.compress(input)
    output = whole[2:-4]
'''),
    ('slices', Z, '''                d = self.buffer[:size]
                self.buffer = self.buffer[size:]
                self.offset += size
                return d

            if final''', '''                d, rest = self.buffer[:size], self.buffer[size:]
                self.offset += len(d)
                self.buffer = rest
                return d

            if final'''),
]
