# -*- coding: utf-8 -*-
"""R02 record stream framing."""
from ..terms import T, Term, is_const, cval, show, subterms, alternatives
from ..flow import dominators, facts_at, reachable
from ..paths import refine
from ..bits import bits_of
from ._util import (short, len_at_least, norm_facts, passes_through,
                    names_of_types, cmp_pairs, is_len_of)
from .R01 import read_word, stream_read, word_width, inline

TECHNIQUE = 'path-sensitive value-flow analysis (typestate of the record reader)'
LEVEL_NOTE = 'All paths of reader, bounded read and writer; file objects are assumed to return at most the requested number of bytes.'
EXPLANATION = '''Path-sensitive value-flow analysis of the record reader (all
helpers inlined, generator loop included): framing facts are decided on the
product of control flow and merge choices; every normal end of the reader,
every back edge and every yielded record is an obligation.'''

MOD = 'hwp5.recordstream'


def run(ctx):
    readn_rule(ctx)
    reader_rule(ctx)
    dump_rule(ctx)
    users_rule(ctx)


def readn_rule(ctx):
    R = 'R02.readn'
    ctx.rule(R, 'the bounded read returns only data whose length was found to '
             'be the requested size, reports an empty read as Eof and any '
             'other short read as an exception that is not an Eof', 3)
    fi = ctx.need_func('hwp5.dataio', 'readn')
    g = refine(ctx.graph(fi, inline=lambda f, w: True))
    size = T('sym', fi.params[1])
    f = T('sym', fi.params[0])
    dom = dominators(g)
    for n in g.returns:
        facts = [(c, p) for c, p, b in facts_at(g, n.id, dom)]
        v = n.value
        ok = len_at_least(facts, v, size) or \
            any(op == '==' and a is size and cval(b) == 0
                for op, a, b in cmp_pairs(facts)) and cval(v) == b''
        ctx.check(ok, R, 'length of returned data',
                  'readn() returns %s without having found len(data) >= size'
                  ' (known: %s)' % (short(v), [(short(c), p)
                                              for c, p in facts]),
                  ctx.where(n))
        src = [x for x in subterms(v) if x.op == 'res' and
               x.args[1] is T('attr', f, 'read')]
        ctx.check(bool(src) or is_const(v) or v.op == 'loopvar', R,
                  'origin of returned data', 'readn() returns %s' % short(v),
                  ctx.where(n))
    eof = ctx.prog.cls('hwp5.dataio', 'Eof')
    for n in g.nodes:
        if n.kind != 'raise':
            continue
        exc = n.get('exc') or n.get('value')
        cls = exc_class(exc)
        facts = [(c, p) for c, p, b in facts_at(g, n.id, dom)]
        empty = any(op in ('==', '<=') and cval(b) == 0 and
                    a.op == 'pure' and a.args[0].args[0] == 'builtins.len'
                    or op == '<' and cval(b) == 1 and a.op == 'pure'
                    for op, a, b in cmp_pairs(facts)) or \
            any(not p and (c.op in ('res', 'loopvar') or
                           c.op == 'pure') for c, p in norm_facts(facts))
        if cls is not None and eof is not None and \
                ctx.prog.is_subclass(cls, eof):
            ctx.check(empty, R, 'Eof only for an empty read',
                      'Eof raised although data may have been read (%s)' %
                      [(short(c), p) for c, p in facts], ctx.where(n))
        else:
            ctx.ok(R, 'raise %s' % (cls.name if cls else short(exc)))


def exc_class(t):
    if t is None:
        return None
    if t.op == 'inst' or t.op == 'class':
        return t.args[0] if not isinstance(t.args[0], Term) else None
    return None


def stream_reads(g):
    return [n for n in g.nodes if n.kind == 'call' and
            n.get('result') is not None and
            (read_word(n.result) or stream_read(n.result))]


def reader_rule(ctx):
    R = 'R02.reader'
    ctx.rule(R, 'read_records: every iteration yields one record or ends; it '
             'ends normally only when the first header word could not be '
             'read because the stream had ended', 3)
    RP = 'R02.record'
    ctx.rule(RP, 'every record has the announced payload, tag, level, size '
             'and the next sequence number', 5)
    fi = ctx.need_func(MOD, 'read_records')
    base = ctx.graph(fi, inline=inline)
    g = refine(base)
    dom = dominators(g)
    stream = T('sym', fi.params[0])
    reads = stream_reads(g)
    if not reads:
        ctx.bad(R, fi.fullname, 'no read of the stream found')
        return
    # header words: reads not preceded by another read in the iteration
    loops = [n for n in g.nodes if n.kind == 'loop']
    back = {s for n in loops for s, l in n.pred if s > n.id}
    readids = {n.id for n in reads}
    entry_free = set()
    st = [g.entry] + [n.id for n in loops]
    while st:
        x = st.pop()
        if x in entry_free:
            continue
        entry_free.add(x)
        if x in readids:
            continue
        st.extend(y for y, l in g.nodes[x].succ)
    first = {n.id for n in reads if n.id in entry_free}
    firstorig = {g.nodes[i].get('orig').id for i in first}
    # handlers that mark a clean end
    eof = ctx.prog.cls('hwp5.dataio', 'Eof')
    clean = set()
    for n in g.nodes:
        if n.kind == 'handler':
            srcs = {s for lst in n.sources for s, l in lst}
            names = names_of_types(n.types)
            if srcs and srcs <= firstorig and names == ['Eof']:
                clean.add(n.id)
    # a raw read whose emptiness was tested is a clean end too
    yields = [n for n in g.nodes if n.kind == 'yield']
    exits = {n.id for n in g.returns}
    emptyok = set()
    for n in g.returns:
        for c, p in norm_facts([(c, p) for c, p, b in
                                facts_at(g, n.id, dom)]):
            if (not p and c.op == 'res' and stream_read(c)):
                emptyok.add(n.id)
    bad = passes_through(g, [g.entry], exits - emptyok, clean)
    ctx.check(not bad, R, 'normal end',
              'the reader can end normally without the stream having ended '
              'at a record boundary: %s' % path_text(ctx, g, bad[0], clean)
              if bad else '', ctx.where(g.nodes[bad[0]]) if bad else None)
    ctx.check(bool(clean or emptyok), R, 'clean end exists',
              'no clean end of stream is recognised: reading a complete '
              'stream ends in an exception')
    ys = {n.id for n in yields}
    for lp in loops:
        inits = [y for y, l in lp.succ]
        hit = passes_through(g, inits, {lp.id}, ys)
        ctx.check(not hit, R, 'every iteration yields',
                  'an iteration can go on to the next record without '
                  'yielding the current one', ctx.where(lp))
    for n in reads:
        st = (read_word(n.result) or (None, stream_read(n.result)[0]))[1] \
            if read_word(n.result) else stream_read(n.result)[0]
        ctx.check(st is stream, R, 'reads the given stream',
                  'reads %s' % short(st), ctx.where(n))
    ctx.check(bool(yields), R, 'yields records', 'nothing is yielded')
    seen = set()
    for n in yields:
        v = n.value
        for leaf in alternatives(v):
            if leaf in seen:
                continue
            seen.add(leaf)
            one_record(ctx, RP, g, n, leaf, base, stream)


def path_text(ctx, g, target, avoid):
    """a short description of a path to target avoiding nodes"""
    prev = {g.entry: None}
    q = [g.entry]
    for x in q:
        if x == target:
            break
        for y, l in g.nodes[x].succ:
            if y not in prev and y not in avoid:
                prev[y] = (x, l)
                q.append(y)
    steps = []
    x = target
    while prev.get(x):
        p, l = prev[x]
        if l in ('T', 'F', 'exc', 'back'):
            steps.append('%s:%s' % (g.nodes[p].loc.split('/')[-1], l))
        x = p
    return ' -> '.join(reversed(steps[-8:])) or 'directly'


def dict_get(leaf, name):
    if leaf.op != 'dict':
        return None
    for k, v in leaf.args:
        if cval(k) == name:
            return v
    return None


def one_record(ctx, R, g, n, leaf, base, stream):
    w = ctx.where(n)
    if leaf.op != 'dict':
        ctx.bad(R, 'record', 'yields %s, not a record' % short(leaf), w)
        return
    tag, level, size, payload, seq = [dict_get(leaf, k) for k in (
        'tagid', 'level', 'size', 'payload', 'seqno')]
    if tag is None or level is None or size is None or payload is None:
        ctx.bad(R, 'record members', 'record has no tagid, level, size or '
                'payload: %s' % short(leaf), w)
        return
    bt = bits_of(tag, word_width)
    words = sorted({x[0] for x in (bt.b if bt else ())
                    if isinstance(x, tuple)}, key=str)
    hw = words[0] if len(words) == 1 else None
    ctx.check(hw is not None and bt.b == [(hw, i) for i in range(10)], R,
              'tagid', 'tagid is %s' % short(tag), w)
    bl = bits_of(level, word_width)
    ctx.check(bl is not None and bl.b == [(hw, i) for i in range(10, 20)], R,
              'level', 'level is %s' % short(level), w)
    sr = stream_read(payload)
    ok = sr is not None and sr[0] is stream and \
        payload.args[1].op == 'func' and payload.args[1].args[0].name == \
        'readn'
    if not ok and sr is not None:
        facts = [(c, p) for c, p, b in facts_at(g, n.id)]
        ok = len_at_least(facts, payload, sr[1])
    ctx.check(ok, R, 'payload is read in full',
              'payload is %s: not a bounded read of the stream' %
              short(payload), w)
    if sr is not None:
        s2 = n.get('simp')(sr[1]) if n.get('simp') else sr[1]
        alts = set(alternatives(sr[1]))
        ctx.check(s2 is size or is_len_of(size, payload) or
                  set(alternatives(size)) <= alts, R, 'size',
                  'payload is read with size %s but the record says %s' % (
                      short(sr[1]), short(size)), w)
        for a in alts:
            bs = bits_of(a, word_width)
            good = bs is not None and bs.b == [(hw, i)
                                               for i in range(20, 32)]
            rw = read_word(a)
            good = good or rw is not None and a is not hw
            ctx.check(good, R, 'payload size comes from the header',
                      'payload size is %s' % short(a), w)
    if seq is None:
        ctx.bad(R, 'seqno', 'record has no sequence number', w)
        return
    carried = n.get('orig') is not None and n.orig.value.op == 'loopvar'
    good = False
    if seq.op == 'loopvar':
        good = not carried and is_counter(base, seq)
    elif carried and cval(seq) == 0 and is_const(seq):
        good = True
    elif carried and seq.op == 'bin' and seq.args[0] == '+':
        a, b = seq.args[1:]
        if is_const(a):
            a, b = b, a
        good = cval(b) == 1 and a.op == 'loopvar' and is_counter(base, a)
    elif seq.op == 'elem':
        s = show(seq)
        good = 'itertools.count' in s
    ctx.check(good, R, 'seqno', 'sequence number %s does not count 0, 1, 2 '
              '...' % short(seq), w)


def is_counter(base, lv):
    """loop variable that starts at 0 and grows by 1 per iteration"""
    d = base.loopvars.get(lv)
    return bool(d) and cval(d[0]) == 0 and bool(d[1]) and all(
        x.op == 'bin' and x.args[0] == '+' and (
            x.args[1] is lv and cval(x.args[2]) == 1 or
            x.args[2] is lv and cval(x.args[1]) == 1) for x in d[1])


def dump_rule(ctx):
    R = 'R02.dump'
    ctx.rule(R, 'writing a record writes its encoded header, then its '
             'payload, on every path', 1)
    fi = ctx.need_func(MOD, 'dump_record')
    enc = ctx.need_func(MOD, 'encode_record_header')
    g = refine(ctx.graph(fi, inline=lambda f, w: f is not enc))
    f, rec = T('sym', fi.params[0]), T('sym', fi.params[1])
    seq = []
    for n in g.nodes:
        if n.kind == 'call' and n.fn is T('attr', f, 'write'):
            seq.append((n, n.args[0]))
    flat = []
    for n, a in seq:
        st = [a]
        while st:
            x = st.pop(0)
            if x.op == 'bin' and x.args[0] == '+':
                st = [x.args[1], x.args[2]] + st
            else:
                flat.append((n, x))
    kinds = []
    for n, x in flat:
        if x.op == 'res' and x.args[1].op == 'func' and \
                x.args[1].args[0] is enc and x.args[2] == (rec,):
            kinds.append('header')
        elif x is T('sub', rec, T('const', 'payload')):
            kinds.append('payload')
        else:
            kinds.append(short(x))
    ids = [n.id for n, x in flat]
    exits = {n.id for n in g.returns}
    ok = kinds == ['header', 'payload'] and ids == sorted(ids) and \
        not any(passes_through(g, [g.entry], exits, {i}) for i in ids)
    ctx.check(ok, R, fi.fullname, 'writes %s' % kinds, fi.node.lineno)


def users_rule(ctx):
    R = 'R02.single-reader'
    ctx.rule(R, 'no other code decodes record headers or catches the '
             'short-read exceptions of the reader', 1)
    dec = ctx.prog.find_func(MOD, 'decode_record_header')
    n = 0
    for f in ctx.prog.functions:
        g = ctx.graph(f)
        for c in g.nodes:
            if c.kind == 'call' and c.get('target') is not None and \
                    c.target is dec:
                ok = f.module.name == MOD
                ctx.check(ok, R, f.fullname, 'decodes record headers itself',
                          ctx.where(c))
                n += 1
    if not n:
        ctx.ok(R, 'reader has no separate header decoder')


witnesses = [
    ('short payload', 'hwp5/recordstream.py',
     'payload = dataio.readn(f, size)', 'payload = f.read(size)'),
    ('seqno start', 'hwp5/recordstream.py', '    seqno = 0\n    while',
     '    seqno = 1\n    while'),
    ('empty payload ends', 'hwp5/recordstream.py',
     "        if record:\n            yield record",
     "        if record and record['payload']:\n            yield record"),
    ('catch any', 'hwp5/recordstream.py', '    except Eof:\n        return None',
     '    except Exception:\n        return None'),
    ('catch wide', 'hwp5/recordstream.py',
     '''    header = decode_record_header(f)
    if header is None:
        return
    tagid, level, size = header
    payload = dataio.readn(f, size)''',
     '''    header = decode_record_header(f)
    if header is None:
        return
    tagid, level, size = header
    try:
        payload = dataio.readn(f, size)
    except Eof:
        return'''),
    ('readn', 'hwp5/dataio.py', 'if datasize < size:',
     'if datasize == 0 and size:'),
    ('dump order', 'hwp5/recordstream.py',
     "    f.write(hdr)\n    f.write(record['payload'])",
     "    f.write(record['payload'])\n    f.write(hdr)"),
]

LOOP = """    seqno = 0
    while True:
        record = read_record(f, seqno)
        if record:
            yield record
        else:
            return
        seqno += 1
"""
READ = """    header = decode_record_header(f)
    if header is None:
        return
    tagid, level, size = header
    payload = dataio.readn(f, size)
    return Record(tagid, level, payload, size, seqno)
"""
benign = [
    ('while record', 'hwp5/recordstream.py', LOOP, """    seqno = 0
    record = read_record(f, seqno)
    while record is not None:
        yield record
        seqno = seqno + 1
        record = read_record(f, seqno)
"""),
    ('count', 'hwp5/recordstream.py', LOOP, """    import itertools
    for seqno in itertools.count():
        record = read_record(f, seqno)
        if not record:
            break
        yield record
"""),
    ('break', 'hwp5/recordstream.py', LOOP, """    n = 0
    while True:
        rec = read_record(f, n)
        if rec is None:
            break
        n += 1
        yield rec
"""),
    ('nested', 'hwp5/recordstream.py', READ, """    header = decode_record_header(f)
    if header is not None:
        tagid, level, size = header
        return Record(tagid, level, dataio.readn(f, size), size, seqno)
    return None
"""),
    ('index', 'hwp5/recordstream.py', READ, """    hdr = decode_record_header(f)
    if not hdr:
        return None
    data = dataio.readn(f, hdr[2])
    return Record(hdr[0], hdr[1], data, hdr[2], seqno)
"""),
    ('helper', 'hwp5/recordstream.py', READ, """    header = decode_record_header(f)
    if header is None:
        return
    return _with_payload(f, header, seqno)


def _with_payload(f, header, seqno):
    tagid, level, size = header
    payload = dataio.readn(f, size)
    return Record(tagid, level, payload, size=size, seqno=seqno)
"""),
    ('join', 'hwp5/recordstream.py', """    f.write(hdr)
    f.write(record['payload'])""", """    payload = record['payload']
    for piece in (hdr, payload):
        f.write(piece)"""),
    ('readn order', 'hwp5/dataio.py', """    if datasize < size:
        try:
            pos = f.tell()
        except IOError:
            pos = '<UNKNOWN>'
        if datasize == 0:
            raise Eof(pos)
        raise OutOfData(pos)
    return data
""", """    if size <= datasize:
        return data
    try:
        pos = f.tell()
    except IOError:
        pos = '<UNKNOWN>'
    if data:
        raise OutOfData(pos)
    raise Eof(pos)
"""),
    ('readn loop', 'hwp5/dataio.py', """    data = f.read(size)
    datasize = len(data)
""", """    data = f.read(size)
    while len(data) < size:
        more = f.read(size - len(data))
        if not more:
            break
        data += more
    datasize = len(data)
"""),
    ('decode merge', 'hwp5/recordstream.py', """    try:
        # TagID, Level, Size
        rechdr = UINT32.read(f)
    except Eof:
        return None
    tagid""", """    try:
        rechdr = UINT32.read(f)
    except Eof:
        rechdr = None
    if rechdr is None:
        return None
    tagid"""),
]
