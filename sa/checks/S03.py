# -*- coding: utf-8 -*-
"""S03 distribution streams are decrypted with the prescribed key schedule."""
from ..terms import T, Term, is_const, cval, const, subterms, alternatives
from ..bits import Bits
from ..affine import bits, linear, eval_, Affine
from ..cases import walk
from ..flow import dominators, facts_at, dom_chain
from ._util import short, fn_args, norm_facts, refine

TECHNIQUE = ('symbolic transition relation of the unmasking loop, extracted '
             'from the source and compared in a congruence and bit-provenance '
             'domain; dataflow of key, head and tail; argument audit of every '
             'AES backend')
LEVEL_NOTE = ('The unmasking loop is judged when its state is carried in '
              'loop variables (generator state, counter, key byte); AES '
              'itself is trusted.')
EXPLANATION = '''The generator state is read from the loop variable that is
initialised with the little-endian word of the first four payload bytes. Its
next value, the key byte and the run length are reduced to bits of affine
functions of the state modulo 2^32 and compared with 214013*s+2531011, bits 16
to 23 of the first and 16 to 19 (plus one) of the second value drawn. The
payload is XORed with the current key byte exactly at the indices from 4 to
255. The key is the 16 bytes at 4 + (seed & 15), a head of another size than
256 never reaches the result, the tail is all of the stream after the head
record, and every backend is asked for unpadded AES-128-ECB decryption.'''

A, C = 214013, 2531011


def run(ctx):
    queries = [
        ('decode', 'from hwp5.distdoc import decode\n'
         'def q(stream):\n    return decode(stream)\n'),
        ('tail_decrypted', 'from hwp5.filestructure import '
         'Hwp5DistDocStream\ndef q(item):\n'
         '    s = Hwp5DistDocStream(item, None)\n'
         '    return s.tail_decrypted()\n'),
        ('open', 'from hwp5.filestructure import '
         'Hwp5DistDocStream\ndef q(item):\n'
         '    s = Hwp5DistDocStream(item, None)\n'
         '    return s.open()\n'),
    ]
    ctx.rule('S03.generator', 'the generator, the key byte and the run '
             'length', 3)
    ctx.rule('S03.unmask', 'bytes 4 to 255 are XORed with the key byte', 1)
    ctx.rule('S03.key', 'the key is 16 bytes at 4 + (seed & 15)', 1)
    ctx.rule('S03.size', 'a head of another size than 256 is refused', 1)
    ctx.rule('S03.head', 'key and tail are those of the stream', 2)
    ctx.rule('S03.aes', 'every backend decrypts AES-128-ECB without '
             'padding', 2)
    for name, text in queries:
        g = ctx.query(text, inline=lambda f, w: f.module.name not in (
            'hwp5.recordstream', 'hwp5.plat'))
        path(ctx, name, g)
    aes_rule(ctx)


def is_read_record(t):
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'func' and \
        fn.args[0].name == 'read_record'


def payload_of(t):
    """t is the payload of a record that was read -> the record term"""
    if t.op == 'sub' and cval(t.args[1]) == 'payload' and \
            is_read_record(t.args[0]):
        return t.args[0]
    return None


def unwrap(t):
    """bytes/bytearray copies"""
    while True:
        fn, a = fn_args(t)
        if fn is not None and fn.op == 'ext' and fn.args[0] in (
                'builtins.bytearray', 'builtins.bytes') and a:
            t = a[0]
        elif t.op in ('bytearray', 'inst') and t.args and isinstance(
                t.args[-1], tuple) and t.args[-1] and \
                isinstance(t.args[-1][0], Term):
            t = t.args[-1][0]
        else:
            return t


def byte_of(t):
    """(payload term, index) of a byte, or None"""
    if t.op == 'sub' and type(cval(t.args[1])) is int:
        p = unwrap(t.args[0])
        if payload_of(p) is not None:
            return p, cval(t.args[1])
    if t.op == 'loopvar' and len(t.args) > 2 and isinstance(t.args[2], Term):
        return None
    return None


def seed_leaf(t):
    b = byte_of(t)
    if b is not None and 0 <= b[1] < 4:
        return Bits([(('seed', b[0]), 8 * b[1] + i) for i in range(8)])
    # struct / int.from_bytes
    fn, a = fn_args(t)
    if fn is not None and fn.op in ('ext', 'attr'):
        nm = fn.args[0] if fn.op == 'ext' else fn.args[1]
        if isinstance(nm, str) and nm.endswith('from_bytes') and \
                len(a) > 1 and cval(a[1]) == 'little':
            p = first4(a[0])
            if p is not None:
                return whole(p)
    if t.op in ('sub', 'item') and (cval(t.args[1]) == 0 if isinstance(
            t.args[1], Term) else t.args[1] == 0):
        fn, a = fn_args(t.args[0])
        if fn is not None and fn.op == 'ext' and fn.args[0] in (
                'struct.unpack', 'struct.unpack_from') and \
                cval(a[0]) in ('<I', '<L'):
            p = first4(a[1])
            if p is None and fn.args[0].endswith('_from') and (
                    len(a) < 3 or cval(a[2]) == 0):
                p = unwrap(a[1])
                p = p if payload_of(p) is not None else None
            if p is not None:
                return whole(p)
    return None


def whole(p):
    return Bits([(('seed', p), i) for i in range(32)])


def first4(t):
    t = unwrap(t)
    if t.op == 'sub':
        s = slice_of(t.args[1])
        if s and (s[0] is None or cval(s[0]) == 0) and s[1] is not None and \
                cval(s[1]) == 4:
            p = unwrap(t.args[0])
            if payload_of(p) is not None:
                return p
    return None


def slice_of(k):
    if k.op == 'slice':
        return [None if (is_const(x) and cval(x) is None) else x
                for x in k.args]
    fn, a = fn_args(k)
    if fn is not None and fn.op == 'ext' and fn.args[0].endswith('slice'):
        return list(a)
    return None


def is_seed(t):
    """payload whose first little-endian word t is"""
    b = bits(t, seed_leaf)
    if b is None or len(b.b) != 32:
        return None
    k = b.b[0]
    if isinstance(k, tuple) and all(x == (k[0], i)
                                    for i, x in enumerate(b.b)):
        return k[0][1]
    return None


def path(ctx, name, g):
    R = 'S03.head'
    dec = None
    for n in g.nodes:
        if n.kind == 'call':
            fn, a = fn_args(n.fn)
            if fn is not None and fn.op == 'func' and \
                    fn.args[0].name == 'get_aes128ecb_decrypt' and \
                    len(n.args) == 2:
                dec = n
    if not ctx.check(dec is not None, R, name, 'nothing is decrypted with '
                     'the key and the rest of the stream'):
        return
    out = [n for n in g.nodes if n.kind == 'exit-return']
    for n in out:
        v = n.get('value')
        ok = v is not None and any(x is dec.result for x in subterms(v))
        if ok and v is not dec.result:
            fn, a = fn_args(v)
            ok = fn is not None and fn.op == 'ext' and \
                fn.args[0] == 'io.BytesIO' and a and a[0] is dec.result
        ctx.check(ok, R, name + ' result', 'the result is not the decrypted '
                  'tail', ctx.where(n))
    key, tail = dec.args
    # the tail: everything after the head record of the same stream
    fn, a = fn_args(unwrap(tail))
    ok = fn is not None and fn.op == 'attr' and fn.args[1] == 'read' and \
        (not a or cval(a[0]) in (-1, None) and is_const(a[0]))
    ctx.check(ok, R, name + ' tail', 'the tail is %s' % short(tail),
              ctx.where(dec))
    if ok:
        stream = fn.args[0]
        rd = [n for n in g.nodes if n.kind == 'call' and
              n.get('result') is unwrap(tail)]
        recs = {n.id for n in g.nodes if n.kind == 'call' and
                is_read_record(n.get('result') or n.fn) and n.args and
                n.args[0] is stream}
        others = [n for n in g.nodes if n.kind == 'call' and
                  n.fn.op == 'attr' and n.fn.args[0] is stream and
                  n.fn.args[1] in ('read', 'seek', 'readline') and
                  n.get('result') is not unwrap(tail)]
        ok = len(recs) == 1 and not others and rd and \
            all(not passes(g, rd[0].id, recs) for x in (1,))
        ctx.check(ok, R, name + ' order', 'the tail is not read directly '
                  'after the head record', ctx.where(dec))
    # the key
    R = 'S03.key'
    base, start, stop = spans(key)
    payload = unwrap(base)
    if not ctx.check(payload_of(payload) is not None, R, name + ' base',
                     'the key is not taken from the head record: %s' %
                     short(base), ctx.where(dec)):
        return
    k, d = linear(start)
    low = [t for t in d if not is_const(t)]
    ok = k == 4 and len(low) == 1 and d[low[0]] == 1
    if ok:
        b = bits(low[0], seed_leaf)
        ok = b is not None and len(b.b) == 4 and all(
            x == (('seed', payload), i) for i, x in enumerate(b.b))
    ctx.check(ok, R, name + ' offset', 'the key starts at %s' % short(start),
              ctx.where(dec))
    ctx.check(stop == 16, R, name + ' length', 'the key has %s bytes' % stop,
              ctx.where(dec))
    # the head has 256 bytes
    R = 'S03.size'

    def other_size(c):
        if c.op == 'cmp':
            op, x, y = c.args
            if is_const(x):
                x, y = y, x
            fn, a = fn_args(x)
            if fn is not None and fn.op == 'ext' and \
                    fn.args[0] == 'builtins.len' and \
                    unwrap(a[0]) is payload and cval(y) == 256:
                return {'!=': True, '==': False}.get(op)
        return None
    seen = walk(g, [0], other_size)
    ctx.check(dec.id not in seen, R, name, 'a head record of another size '
              'is used', ctx.where(dec))
    unmask(ctx, name, g, payload)


def passes(g, rid, recs):
    """the read can be reached from the start without reading the head"""
    seen = walk(g, [0], lambda c: None, stops=recs)
    return rid in seen


def spans(t):
    """(base, start term, length) of nested slices"""
    t = unwrap(t)
    start, length = const(0), None
    chain = []
    while t.op == 'sub' and slice_of(t.args[1]) is not None:
        chain.append(slice_of(t.args[1]))
        t = unwrap(t.args[0])
    for s in reversed(chain):
        lo = s[0] or const(0)
        new = T('bin', '+', start, lo)
        if s[1] is not None:
            k1, d1 = linear(s[1])
            k0, d0 = linear(lo)
            n = k1 - k0 if d1 == d0 else None
        else:
            n = None if length is None else length
            if length is not None:
                k0, d0 = linear(lo)
                n = length - k0 if not d0 else None
        if n is not None and length is not None:
            k0, d0 = linear(lo)
            left = length - k0 if not d0 else None
            n = min(n, left) if left is not None else None
        start, length = new, n
    return t, start, length


def unmask(ctx, name, g, payload):
    R = 'S03.generator'
    state = None
    for lv, (init, vals) in g.loopvars.items():
        if isinstance(init, Term) and is_seed(init) is payload and any(
                isinstance(v, Term) and v is not lv for v in vals):
            state = lv
    if state is None:
        # generated some other way: the constants must still be there
        consts = {cval(x) for n in g.nodes for v in n.d.values()
                  for w in (v if isinstance(v, tuple) else (v,))
                  if isinstance(w, Term) for x in subterms(w)
                  if is_const(x)}
        for v in (A, C):
            ctx.check(v in consts, R, '%s constant %d' % (name, v),
                      'does not occur')
        ctx.notes.append('S03.generator: %s: no loop-carried state, only '
                         'the constants were looked at' % name)
        return
    init, vals = g.loopvars[state]

    def leaf(t):
        if t is state:
            return Affine(state, 1, 0)
        return None

    def aff(a, c, lo, n):
        key = ('aff', state, a % (1 << 32), c % (1 << 32))
        return [(key, lo + i) for i in range(n)]
    a2, c2 = A * A, A * C + C
    # branch that draws new values: the condition in the choices
    conds = set()
    for lv, (i0, vs) in g.loopvars.items():
        for v in vs:
            if isinstance(v, Term):
                for x in subterms(v):
                    if x.op == 'ite' and any(
                            y is state for z in x.args[1:]
                            for y in subterms(z)):
                        conds.add(x.args[0])
    counter = None
    for c in conds:
        for x in subterms(c):
            if x.op == 'loopvar' and x in g.loopvars and x is not state:
                counter = x
    if not ctx.check(counter is not None, R, name + ' counter',
                     'new values are not drawn when a counter runs out'):
        return
    ci, cv = g.loopvars[counter]

    def draws(c):
        """valuation: the counter is zero"""
        def ev(t):
            if t.op == 'cmp' and t.args[1] is counter and \
                    is_const(t.args[2]):
                v = cval(t.args[2])
                return {'==': 0 == v, '!=': 0 != v, '<=': 0 <= v,
                        '<': 0 < v, '>': 0 > v, '>=': 0 >= v}.get(t.args[0])
            if t is counter:
                return False
            if t.op == 'not':
                r = ev(t.args[0])
                return None if r is None else not r
            return None
        return ev(c)

    def choose(t, zero):
        """t with the choices on the counter made"""
        if t.op in ('phi',) and len(t.args):
            return t
        if t.op == 'ite':
            r = draws(t.args[0])
            if r is not None:
                if zero:
                    return choose(t.args[1 if r else 2], zero)
                return choose(t.args[2 if r else 1], zero)
            return t
        if t.op == 'bin':
            return T('bin', t.args[0], choose(t.args[1], zero),
                     choose(t.args[2], zero))
        return t
    ctx.check(is_const(ci) and cval(ci) == 0, R, name + ' start',
              'the first bytes do not draw new values')

    def judge(what, t, want, say):
        b = bits(t, leaf)
        ctx.check(b is not None and b.b == want, R, '%s %s' % (name, what),
                  '%s is %s' % (say, short(t)))
    # next state
    for v in vals:
        z = choose(v, True)
        b = eval_(z, leaf)
        if isinstance(b, Affine):
            b = Bits(b.bits().b[:32])
        if v.op == 'ite' or z is not v:
            ctx.check(b is not None and b.b[:32] == aff(a2, c2, 0, 32), R,
                      name + ' state', 'two values drawn leave the state '
                      '%s' % short(z))
            ctx.check(choose(v, False) is state, R, name + ' kept state',
                      'the state changes without a draw')
        else:
            # the counter decides on paths, the state is merged
            ok = False
            for x in alternatives(v):
                b = eval_(x, leaf)
                if isinstance(b, Affine):
                    b = Bits(b.bits().b[:32])
                ok = ok or isinstance(b, Bits) and \
                    b.b[:32] == aff(a2, c2, 0, 32)
            ctx.check(ok or any(x.op == 'loopvar' for x in alternatives(v)),
                      R, name + ' state', 'the state becomes %s' % short(v))
    draw = []
    for n in g.nodes:
        if n.kind == 'setattr' and any(x is state
                                       for x in subterms(n.value)):
            b = eval_(n.value, leaf)
            if isinstance(b, Affine):
                b = Bits(b.bits().b[:32])
            ok = b is not None and b.b[:32] in (
                aff(A, C, 0, 32), aff(a2, c2, 0, 32))
            ctx.check(ok, R, name + ' step', 'the state is stepped to %s' %
                      short(n.value), ctx.where(n))
            if ok:
                draw.append(n)
    ctx.check(len(draw) == 2 or not draw, R, name + ' draws',
              '%d values are drawn at a time' % len(draw))
    # run length
    for v in cv:
        z = choose(v, True)
        k, d = linear(z)
        ok = k == 0 and len(d) == 1 and list(d.values()) == [1]
        if ok:
            b = bits(list(d)[0], leaf)
            ok = b is not None and b.b == aff(a2, c2, 16, 4)
        ctx.check(ok, R, name + ' length', 'the run length is %s' % short(z))
        k, d = linear(choose(v, False))
        ctx.check(k == -1 and d == {counter: 1}, R, name + ' count',
                  'the counter becomes %s' % short(choose(v, False)))
    # the XOR
    R = 'S03.unmask'
    stores = [n for n in g.nodes if n.kind == 'setitem' and
              unwrap(n.obj) is payload]
    ctx.check(len(stores) == 1, R, name + ' store', 'the payload is written '
              'in %d places' % len(stores))
    for n in stores:
        idx = n.key
        v = n.value
        ok = v.op == 'bin' and v.args[0] == '^'
        keyt = None
        if ok:
            for p, q in ((v.args[1], v.args[2]), (v.args[2], v.args[1])):
                if is_elem(p, payload, idx):
                    keyt = q
        if not ctx.check(keyt is not None, R, name + ' xor', 'a byte '
                         'becomes %s' % short(v), ctx.where(n)):
            continue
        z, o = choose(keyt, True), choose(keyt, False)
        b = bits(z, leaf)
        ctx.check(b is not None and b.b == aff(A, C, 16, 8), R,
                  name + ' key byte', 'the key byte is %s' % short(z),
                  ctx.where(n))
        kept = o.op == 'loopvar' and o in g.loopvars and any(
            isinstance(x, Term) and (x is keyt or choose(x, True) is z)
            for x in g.loopvars[o][1])
        ctx.check(kept, R, name + ' kept key', 'the key byte is not kept '
                  'between draws', ctx.where(n))
        # indices
        rng = range_of(idx, payload)
        if not ctx.check(rng is not None, R, name + ' index', 'the index '
                         'is %s' % short(idx), ctx.where(n)):
            continue
        loop = [m for m in g.nodes if m.kind == 'next' and
                idx.op == 'elemidx' and m.id == idx.args[0] or
                m.kind == 'next' and
                m.iter is idx.args[-1] or m.kind == 'next' and
                idx.op == 'elem' and m.iter is idx.args[0]]
        bad = []
        for i in list(range(rng[0], rng[1])):
            def ev(c, i=i):
                if c.op == 'cmp':
                    op, x, y = c.args
                    if y is idx:
                        x, y = y, x
                        op = {'<': '>', '>': '<', '<=': '>=',
                              '>=': '<='}.get(op, op)
                    if x is idx and is_const(y):
                        k = cval(y)
                        return {'<': i < k, '>': i > k, '<=': i <= k,
                                '>=': i >= k, '==': i == k,
                                '!=': i != k}[op]
                return None
            for m in loop:
                start = [y for y, l in m.succ if l == 'T']
                back = {y for y, l in m.pred if l} if False else set()
                may = n.id in walk(g, start, ev, stops={m.id})
                skip = m.id in walk(g, start, ev, stops={n.id})
                must = may and not skip_possible(g, start, ev, n.id, m.id)
                if may != (i >= 4) or (i >= 4 and not must):
                    bad.append(i)
        ctx.check(rng == (0, 256) and loop and not bad, R, name + ' range',
                  'indices %s to %s, wrong at %s' % (
                      rng[0], rng[1] - 1, bad[:4]), ctx.where(n))


def skip_possible(g, start, ev, nid, head):
    seen = walk(g, start, ev, stops={nid})
    return any(y == head or g.nodes[x].kind == 'loop'
               for x in seen if x != nid for y, l in g.nodes[x].succ
               if l in ('back',) and g.nodes[y].kind == 'loop')


def is_elem(t, payload, idx):
    if t.op == 'sub' and unwrap(t.args[0]) is payload and t.args[1] is idx:
        return True
    if t.op == 'elem' and unwrap(t.args[0]) is payload:
        # byte and index of one pass over the payload
        return idx.op == 'elemidx' and idx.args[0] == t.args[-1] and \
            unwrap(idx.args[1]) is payload
    if t.op == 'loopvar' and isinstance(t.args[2], Term):
        return is_elem(t.args[2], payload, idx)
    return False


def range_of(idx, payload):
    if idx.op == 'elemidx' and unwrap(idx.args[1]) is payload:
        return 0, 256      # the size is checked
    if idx.op != 'elem':
        return None
    fn, a = fn_args(idx.args[0])
    if fn is not None and fn.op == 'ext' and fn.args[0].endswith('range') \
            and all(is_const(x) for x in a):
        v = [cval(x) for x in a]
        if len(v) == 1:
            return 0, v[0]
        if len(v) == 2:
            return v[0], v[1]
    return None


def aes_rule(ctx):
    R = 'S03.aes'
    f = ctx.need_func('hwp5.plat', 'get_aes128ecb_decrypt')
    makers = {n.target for n in ctx.graphs[f].nodes if n.kind == 'call' and
              n.get('target') is not None}
    done = 0
    for m in sorted(makers, key=lambda x: x.fullname):
        g = ctx.graphs[m]
        fs = {x.args[0] for n in g.nodes if n.kind == 'return'
              for x in subterms(n.value) if x.op == 'func'}
        for d in fs:
            done += backend(ctx, R, d)
    ctx.check(done >= 2, R, 'backends', 'only %d backends decrypt' % done)


def backend(ctx, R, d):
    g = ctx.graph(d, inline=lambda x, w: x.module is d.module)
    names = {}
    for n in g.nodes:
        if n.kind in ('call', 'new') and n.get('fn') is not None:
            if n.fn.op == 'ext':
                names.setdefault(n.fn.args[0].split('.')[-1], []).append(n)
            elif n.fn.op == 'attr':
                names.setdefault(n.fn.args[1], []).append(n)
    what = d.fullname
    params = d.params
    if 'Popen' in names or 'run' in names or 'check_output' in names:
        n = (names.get('Popen') or names.get('run') or
             names.get('check_output'))[0]
        a = n.args[0]
        words = [cval(x) if is_const(x) else x for x in a.args] if \
            a.op in ('list', 'tuple') else None
        if words is None:
            words = flat(a)
        if not ctx.check(words is not None, R, what + ' arguments',
                         'unknown arguments', ctx.where(n)):
            return 1
        for w in ('openssl', 'enc', '-d', '-aes-128-ecb', '-nopad'):
            ctx.check(w in [x for x in words if isinstance(x, str)], R,
                      '%s %s' % (what, w), 'is not given', ctx.where(n))
        for w in ('-e', '-iv', '-a', '-base64', '-salt', '-nosalt', '-k',
                  '-z'):
            ctx.check(w not in [x for x in words if isinstance(x, str)], R,
                      '%s %s' % (what, w), 'is given', ctx.where(n))
        if '-K' in words:
            k = words[words.index('-K') + 1]
            ok = isinstance(k, Term) and hex_of(k, params[0])
            ctx.check(ok, R, what + ' key', 'the key is %s' % short(k),
                      ctx.where(n))
        else:
            ctx.bad(R, what + ' key', 'no key is given', ctx.where(n))
        return 1
    if 'getInstance' in names:
        for n in names['getInstance']:
            ctx.check(cval(n.args[0]) == 'AES/ECB/NoPadding', R,
                      what + ' mode', 'is %s' % short(n.args[0]),
                      ctx.where(n))
        for n in names.get('init', ()):
            ctx.check(n.args and short(n.args[0]).endswith('DECRYPT_MODE'),
                      R, what + ' direction', 'is %s' % short(n.args[0]),
                      ctx.where(n))
        for n in names.get('SecretKeySpec', ()):
            ctx.check(n.args[0].op == 'sym' and
                      n.args[0].args[0] == params[0] and
                      cval(n.args[1]) == 'AES', R, what + ' key',
                      'is %s' % short(n.args[0]), ctx.where(n))
        for n in names.get('doFinal', ()):
            ctx.check(n.args[0].op == 'sym' and
                      n.args[0].args[0] == params[1], R, what + ' data',
                      'is %s' % short(n.args[0]), ctx.where(n))
        return 1
    ciphers = names.get('Cipher', [])
    ctx.check(len(ciphers) == 1, R, what + ' cipher', 'no cipher is made')
    for n in ciphers:
        s = short(n.args[0], 400)
        fn, a = fn_args(n.args[0])
        ctx.check(fn is not None and fn.op == 'ext' and
                  fn.args[0].endswith(('.AES', '.AES128')) and a and
                  a[0].op == 'sym' and a[0].args[0] == params[0], R,
                  what + ' key', 'the algorithm is %s' % s, ctx.where(n))
        fn, a = fn_args(n.args[1])
        ctx.check(fn is not None and fn.op == 'ext' and
                  fn.args[0].endswith('.ECB'), R, what + ' mode',
                  'the mode is %s' % short(n.args[1]), ctx.where(n))
    ctx.check('decryptor' in names and 'encryptor' not in names, R,
              what + ' direction', 'does not decrypt')
    ups = names.get('update', [])
    ctx.check(len(ups) == 1 and ups[0].args[0].op == 'sym' and
              ups[0].args[0].args[0] == params[1], R, what + ' data',
              'the data is %s' % (ups and short(ups[0].args[0])))
    fin = names.get('finalize', [])
    for n in g.nodes:
        if n.kind == 'exit-return':
            v = n.get('value')
            ok = v is not None and ups and fin and any(
                x is ups[0].result for x in subterms(v)) and any(
                x is fin[0].result for x in subterms(v))
            ctx.check(ok, R, what + ' result', 'part of the data is lost',
                      ctx.where(n))
    return 1


def flat(t):
    if t.op in ('list', 'tuple'):
        return [cval(x) if is_const(x) else x for x in t.args]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = flat(t.args[1]), flat(t.args[2])
        return a + b if a is not None and b is not None else None
    if t.op == 'obj' or t.op == 'l':
        return [cval(x) if is_const(x) else x for x in t.args
                if isinstance(x, Term)]
    return None


def hex_of(t, key):
    fn, a = fn_args(t)
    if fn is None:
        return False
    if fn.op == 'ext' and fn.args[0] in ('binascii.b2a_hex',
                                         'binascii.hexlify'):
        return a[0].op == 'sym' and a[0].args[0] == key
    if fn.op == 'attr' and fn.args[1] in ('decode', 'encode'):
        return hex_of(fn.args[0], key)
    if fn.op == 'attr' and fn.args[1] == 'hex':
        b = fn.args[0]
        fn2, a2 = fn_args(b)
        b = a2[0] if fn2 is not None and a2 else b
        return b.op == 'sym' and b.args[0] == key
    return False


D = 'hwp5/distdoc.py'
witnesses = [
    ('mult', D, '* 214013 +', '* 214031 +'),
    ('add', D, '2531011', '2531101'),
    ('rshift', D, 'self.seed >> 16', 'self.seed >> 15'),
    ('run', D, '(random.rand() & 0xf) + 1', '(random.rand() & 0x1f) + 1'),
    ('run0', D, '(random.rand() & 0xf) + 1', '(random.rand() & 0xf)'),
    ('order', D, """            key = random.rand() & 0xff
            n = (random.rand() & 0xf) + 1
""", """            n = (random.rand() & 0xf) + 1
            key = random.rand() & 0xff
"""),
    ('keybits', D, 'key = random.rand() & 0xff', 'key = random.rand() & 0x7f'),
    ('start', D, 'if i >= 4:', 'if i > 4:'),
    ('end', D, 'for i in range(256):', 'for i in range(255):'),
    ('offset', D, '4 + (seed & 0xf)', '4 + (seed & 0x1f)'),
    ('offset2', D, '4 + (seed & 0xf)', '4 + (random.seed & 0xf)'),
    ('endian', D, 'data[3] << 24 | data[2] << 16 | data[1] << 8 | data[0]',
     'data[0] << 24 | data[1] << 16 | data[2] << 8 | data[3]'),
    ('key', D, 'sha1ucs16le[:16]', 'sha1ucs16le[:20]'),
    ('size', D, "len(record_payload) != 256", "len(record_payload) < 256"),
    ('tail', D, 'tail = stream.read()', 'tail = stream.read(4096)'),
    ('count', D, '        n -= 1\n', '        if i >= 4:\n'
     '            n -= 1\n'),
    ('cbc', 'hwp5/plat/__init__.py', "'-aes-128-ecb'", "'-aes-128-cbc'"),
    ('pad', 'hwp5/plat/__init__.py', "            '-nopad',\n", ""),
    ('fin', 'hwp5/plat/__init__.py',
     'decryptor.update(ciphertext) + decryptor.finalize()',
     'decryptor.update(ciphertext)'),
    ('tailhead', 'hwp5/filestructure.py', """            read_record(item, 0)
            assert 4 + 256 == item.tell()
            return item.read()
""", """            return item.read()
"""),
]
benign = [
    ('struct', D, [('    seed = data[3] << 24 | data[2] << 16 | data[1] << 8 '
                    '| data[0]\n',
                    "    seed, = struct.unpack('<I', record_payload[:4])\n"),
                   ('import logging\n', 'import logging\nimport struct\n')]),
    ('continue', D, """        if i >= 4:
            data[i] = data[i] ^ key
        n -= 1
""", """        n -= 1
        if i < 4:
            continue
        data[i] ^= key
"""),
    ('mod', D, [('& 0xffffffff', '% (1 << 32)'),
                ('(self.seed >> 16) & 0x7fff', '(self.seed // 65536) & 32767'),
                ('random.rand() & 0xff', 'random.rand() % 256')]),
    ('nonew', D, 'if n == 0:', 'if not n:'),
    ('slice', D, [('    ucs16le = decoded[sha1offset:sha1offset + 80]\n'
                   '    return ucs16le\n',
                   '    return decoded[sha1offset:][:80]\n')]),
    ('inlinekey', D, [('    sha1ucs16le = decode_head_to_sha1(record_payload)'
                       '\n    return sha1ucs16le[:16]\n',
                       '    return decode_head_to_sha1(record_payload)[0:16]'
                       '\n')]),
]
