# -*- coding: utf-8 -*-
"""R05 bit fields and enumerations."""
from ..terms import T, Term, const, is_const, cval, subterms, alternatives
from ..bits import bits_of, Bits, src_bits, expand
from ..model import Model
from ..flow import Walker
from .. import facts
from ._util import short, refine, facts_at, dominators, norm_facts

TECHNIQUE = ('extraction of the flag and enumeration declarations compared '
             'with the format tables; bit-provenance dataflow through the '
             'bit field descriptor for every declared bit range')
LEVEL_NOTE = ('Exact for the declared fields; the descriptor is evaluated in '
              'the bit-provenance domain, for all raw values at once.')
EXPLANATION = '''Every flags member and enumeration declared by the record
classes is evaluated from the source and compared with spec/layout.json. The
bit field descriptor is evaluated in a domain in which each bit of the result
is a given bit of the raw word, once for every bit range that is declared.'''


def run(ctx):
    M = Model(ctx.prog, ctx.layout)
    pairs = fields_rule(ctx, M)
    descriptor_rule(ctx, pairs)
    parser_rule(ctx)
    enum_rule(ctx)
    colour_rule(ctx)
    applied_rule(ctx)


def walk(t, path, out):
    if not isinstance(t, dict):
        return
    if 'flags' in t:
        out.append((path, 'flags', t))
    elif 'enum' in t:
        out.append((path, 'enum', t))
    for k, v in t.items():
        if k == 'members':
            for m in v:
                walk(m['type'], path + '.' + str(m['name']), out)
        elif k == 'cases' and isinstance(v, dict):
            for a, b in v.items():
                walk(b, '%s[%s]' % (path, a), out)
        elif k in ('array', 'narray', 'xarray'):
            walk(v, path + '[]', out)


def collected(members, name):
    out = []
    for m in members:
        walk(m['type'], '%s.%s' % (name, m['name']), out)
    return out


def carrier_bits(t):
    b = t.get('flags')
    fmt = b.get('binfmt') if isinstance(b, dict) else None
    return {'b': 8, 'h': 16, 'i': 32, 'q': 64}.get(
        (fmt or '?')[-1].lower())


def fields_rule(ctx, M):
    R = 'R05.fields'
    ctx.rule(R, 'each bit field has the name, the bit range and the meaning '
             'the format gives it', 200)
    RW = 'R05.ranges'
    ctx.rule(RW, 'each bit field lies inside its word and overlaps no other '
             'field of the word', 150)
    RE = 'R05.enums'
    ctx.rule(RE, 'each enumeration gives each value the name of the format',
             60)
    spec = facts.spec('layout.json')
    pairs = set()
    for c in M.classes:
        if c.name not in spec and c.name in ('Struct', 'RecordModel'):
            continue
        loc = 'src/hwp5/%s' % c.module.path.split('/hwp5/')[-1]
        got = collected(facts.jsonable(M.wire(c)), c.name)
        want = {}
        if c.name in spec:
            want = {(p, k): t for p, k, t in
                    collected(spec[c.name]['members'], c.name)}
        seen = set()
        for p, k, t in got:
            if k == 'flags':
                width = carrier_bits(t)
                used = {}
                if t.get('malformed'):
                    ctx.bad(RW, p, 'malformed field list %s' %
                            str(t['malformed'])[:150], loc)
                names = set()
                for nm, lsb, msb, ty in t['fields']:
                    pairs.add((lsb, msb))
                    fn = '%s.%s' % (p, nm)
                    if nm in names:
                        ctx.bad(RW, fn, 'is declared twice', loc)
                    names.add(nm)
                    top = msb if width is None else min(msb, width - 1)
                    ok = 0 <= lsb <= msb and (width is None or lsb < width)
                    ok = ok and (width is None or msb < width)
                    clash = [used[b] for b in range(lsb, top + 1)
                             if b in used]
                    ctx.check(ok and not clash, RW, fn,
                              'bits %d-%d of a %s bit word%s' % (
                                  lsb, msb, width, ', overlaps ' + clash[0]
                                  if clash else ''), loc)
                    for b in range(lsb, top + 1):
                        used.setdefault(b, nm)
            w = want.get((p, k))
            if w is None:
                continue
            seen.add((p, k))
            if k == 'enum':
                enum_cmp(ctx, RE, p, t, w, loc)
                continue
            wf = {f[0]: f for f in w['fields']}
            gf = {f[0]: f for f in t['fields']}
            width = carrier_bits(w)
            for nm in sorted(set(wf) | set(gf)):
                fn = '%s.%s' % (p, nm)
                a, b = gf.get(nm), wf.get(nm)
                if a is None or b is None:
                    ctx.bad(R, fn, 'is not in the format' if b is None
                            else 'is not decoded', loc)
                    continue
                ctx.check(same_range(a, b, width), R, fn,
                          'is bits %d-%d, the format says %d-%d' % (
                              a[1], a[2], b[1], b[2]), loc)
                if isinstance(b[3], dict) or isinstance(a[3], dict):
                    enum_cmp(ctx, RE, fn, a[3], b[3], loc)
                else:
                    ctx.check(a[3] == b[3], R, fn + ' kind',
                              'is %s, the format says %s' % (a[3], b[3]), loc)
        for p, k in want:
            if (p, k) not in seen:
                ctx.bad(R, p, 'is no longer decoded as %s' % k, loc)
    return pairs


def same_range(a, b, width):
    top = (lambda m: min(m, width - 1)) if width else (lambda m: m)
    return a[1] == b[1] and top(a[2]) == top(b[2])


def enum_cmp(ctx, R, where, got, want, loc):
    if not isinstance(got, dict) or 'enum' not in got or \
            not isinstance(want, dict) or 'enum' not in want:
        ctx.check(got == want, R, where, 'is %s instead of %s' % (
            str(got)[:80], str(want)[:80]), loc)
        return
    g, w = got['enum'], want['enum']
    diff = ['%s=%s (format: %s)' % (k, g.get(k), w.get(k))
            for k in sorted(set(g) | set(w), key=str) if g.get(k) != w.get(k)]
    ctx.check(not diff, R, where, 'names differ: ' + ', '.join(diff[:4]), loc)


# -- descriptor ---------------------------------------------------------------

class Fold(Walker):
    """constant folder over terms"""


def subst(t, mp, memo, w):
    """rebuild t with mp applied and arithmetic on constants folded"""
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]
    r = t
    if t.op == 'bin':
        r = w.binop(t.args[0], subst(t.args[1], mp, memo, w),
                    subst(t.args[2], mp, memo, w))
        a, b = r.args[1:] if r.op == 'bin' else (None, None)
        if r.op == 'bin' and is_const(a) and is_const(b):
            r = arith(r.args[0], a.args[0], b.args[0]) or r
    elif t.op == 'un' or t.op == 'neg':
        r = T(t.op, *[subst(x, mp, memo, w) if isinstance(x, Term) else x
                      for x in t.args])
    elif t.op in ('res', 'pure'):
        k = 2 if t.op == 'res' else 1
        fn = subst(t.args[k - 1], mp, memo, w)
        args = tuple(subst(x, mp, memo, w) for x in t.args[k])
        if fn.op == 'ext' and fn.args[0] in (
                'builtins.int', 'builtins.long') and len(args) == 1:
            r = args[0]
        elif fn.op == 'ext' and fn.args[0] == 'builtins.pow' and \
                len(args) == 2 and all(is_const(x) for x in args):
            r = const(args[0].args[0] ** args[1].args[0])
        else:
            a = list(t.args)
            a[k - 1], a[k] = fn, args
            r = T(t.op, *a)
    elif t.op == 'ite':
        r = T('ite', *[subst(x, mp, memo, w) for x in t.args])
        if is_const(r.args[0]):
            r = r.args[1] if r.args[0].args[0] else r.args[2]
    elif t.op == 'cmp':
        r = w.cmp(t.args[0], subst(t.args[1], mp, memo, w),
                  subst(t.args[2], mp, memo, w))
    elif t.op == 'not':
        x = subst(t.args[0], mp, memo, w)
        r = const(not x.args[0]) if is_const(x) else T('not', x)
    elif t.op == 'phi':
        from ..terms import phi
        r = phi([subst(x, mp, memo, w) for x in t.args])
    memo[t] = r
    return r


def arith(op, a, b):
    try:
        return const({'+': lambda: a + b, '-': lambda: a - b,
                      '*': lambda: a * b, '**': lambda: a ** b,
                      '<<': lambda: a << b, '>>': lambda: a >> b,
                      '|': lambda: a | b, '&': lambda: a & b,
                      '^': lambda: a ^ b, '//': lambda: a // b,
                      '%': lambda: a % b}[op]())
    except Exception:
        return None


def descriptor_rule(ctx, pairs):
    R = 'R05.descriptor'
    ctx.rule(R, 'the value of a bit field consists of exactly the bits of its '
             'range, in order', 80)
    prog = ctx.prog
    ci = prog.cls('hwp5.dataio', 'BitGroupDescriptor')
    if ci is None:
        ci = next((c for c in prog.classes if '__get__' in c.members and
                   c.module.name == 'hwp5.dataio'), None)
    if ci is None:
        ctx.broken('anchor not found: bit field descriptor')
    init = prog.method(ci, '__init__')
    get = prog.method(ci, '__get__')
    loc = 'src/hwp5/dataio.py:%d' % get.node.lineno
    gg = ctx.graph(get, inline=lambda f, w: True)
    w = gg.walker
    inst = T('sym', get.params[1])
    selfs = {t.args[0] for n in gg.nodes for v in n.d.values()
             if isinstance(v, Term) for t in subterms(v) if t.op == 'attr'}
    for lsb, msb in sorted(pairs):
        for form in ('range', 'typed'):
            ty = T('ext', 'builtins.int')
            bg = T('tuple', const(lsb), const(msb)) if form == 'range' else \
                T('tuple', const(lsb), const(msb), ty)
            gi = ctx.graph(init, inline=lambda f, w: True,
                           args={init.params[1]: bg})
            attrs = {}
            for n in gi.nodes:
                if n.kind == 'setattr':
                    attrs[n.attr] = n.value
            mp = {}
            for s in selfs:
                for a, v in attrs.items():
                    mp[T('attr', s, a)] = v
            what = 'bits %d-%d (%s)' % (lsb, msb, form)
            for r in gg.returns:
                v = subst(r.value, mp, {}, w)
                vals = [x for c, x in expand(v)]
                for x in vals:
                    # strip the conversion to the field's type
                    if x.op in ('res', 'pure'):
                        k = 2 if x.op == 'res' else 1
                        if len(x.args[k]) == 1:
                            x = x.args[k][0]
                    b = bits_of(x, lambda t: 64 if t is inst else None)
                    want = Bits([(inst, i) for i in range(lsb, msb + 1)])
                    ctx.check(b is not None and b == want, R, what,
                              'the value is %s' % short(x), loc)
    # the value is converted to the declared type
    ty = T('sym', 'TYPE')
    gi = ctx.graph(init, inline=lambda f, w: True, args={
        init.params[1]: T('tuple', const(3), const(5), ty)})
    attrs = {n.attr: n.value for n in gi.nodes if n.kind == 'setattr'}
    mp = {T('attr', s, a): v for s in selfs for a, v in attrs.items()}
    for r in gg.returns:
        v = subst(r.value, mp, {}, w)
        ok = all(x.op in ('res', 'pure') and
                 x.args[1 if x.op == 'res' else 0] is ty
                 for x in alternatives(v))
        ctx.check(ok, R, 'type', 'a field of a declared type gives %s' %
                  short(v), loc)


def parser_rule(ctx):
    R = 'R05.syntax'
    ctx.rule(R, 'a field declaration is read as first bit, last bit (default '
             'the first), type (default int) and name', 1)
    f = ctx.prog.find_func('hwp5.dataio', '_parse_flags_args')
    if f is None:
        ctx.note = 'declaration parser not found'
        return
    g = ctx.graph(f, inline=lambda x, w: False)
    ys = [n for n in g.nodes if n.kind == 'yield']
    for y in ys:
        v = y.value
        if v.op != 'tuple' or len(v.args) != 2 or \
                v.args[1].op != 'tuple' or len(v.args[1].args) != 3:
            ctx.bad(R, f.fullname, 'yields %s' % short(v), ctx.where(y))
            continue
        name, (lsb, msb, ty) = v.args[0], v.args[1].args
        seq = [drawn(x) for x in (lsb, msb, ty, name)]
        ok = len(seq[0]) == 1 and None not in seq[0]
        ctx.check(ok, R, f.fullname + ' first bit', 'is %s' % short(lsb),
                  ctx.where(y))
        a = set(alternatives(lsb))
        ok = a <= set(alternatives(msb)) and \
            len(set(alternatives(msb)) - a) == 1
        ctx.check(ok, R, f.fullname + ' last bit', 'is %s' % short(msb),
                  ctx.where(y))
        tys = alternatives(ty)
        ok = T('ext', 'builtins.int') in tys and len(tys) == 2
        ctx.check(ok, R, f.fullname + ' type', 'is %s' % short(ty),
                  ctx.where(y))
        # drawn one after the other
        order = [max([p for p in s if p is not None], default=None)
                 for s in seq]
        ok = all(o is not None for o in order) and order == sorted(order) \
            and len(set(order)) == 4
        ctx.check(ok, R, f.fullname + ' order', 'the parts are taken in the '
                  'order %s' % order, ctx.where(y))
    fl = ctx.prog.find_func('hwp5.dataio', 'Flags')
    ft = ctx.prog.cls('hwp5.dataio', 'FlagsType')
    new = ctx.prog.method(ft, '__new__') if ft else None
    if new is not None:
        # every declared name becomes a descriptor of that name
        g = ctx.graph(new, inline=lambda x, w: False)
        ok = any(t.op == 'inst' and t.args[0].name == 'BitGroupDescriptor'
                 or t.op == 'class' and
                 t.args[0].name == 'BitGroupDescriptor'
                 for n in g.nodes for v in list(n.d.values())
                 for vv in (v if isinstance(v, (list, tuple)) else [v])
                 if isinstance(vv, Term) for t in subterms(vv))
        ctx.check(ok, R, new.fullname, 'declared fields are not turned into '
                  'bit field descriptors')


def drawn(t):
    """positions (node order) of the draws a value comes from"""
    out = set()
    for x in alternatives(t):
        if x.op == 'ext':
            continue
        y = x
        while y.op in ('item', 'sub'):
            y = y.args[0]
        out.add(y.args[0] if y.op == 'res' else None)
    return out


def enum_rule(ctx):
    R = 'R05.lookup'
    ctx.rule(R, 'an enumeration numbers its positional names from 0 and '
             'returns for a raw value the member defined for that value', 3)
    ci = ctx.prog.cls('hwp5.dataio', 'EnumType')
    new = ctx.prog.method(ci, '__new__') if ci else None
    if new is None:
        ctx.broken('anchor not found: EnumType.__new__')
    g = ctx.graph(new, inline=lambda x, w: False)
    made = [n for n in g.nodes if n.kind == 'call' and n.fn.op == 'res' and
            len(n.args) == 2]
    seen = set()
    for n in made:
        v, k = n.args
        if v.op == 'elemidx' or v.op == 'item' and 'enumerate' in str(v):
            seen.add('positional')
            it = v.args[-1] if v.op == 'elemidx' else None
            ctx.check(k.op == 'elem', R, 'positional', 'names %s' % short(k),
                      ctx.where(n))
        elif v.op == 'bin':
            ctx.bad(R, 'positional', 'numbers are %s' % short(v),
                    ctx.where(n))
            seen.add('positional')
        elif v.op == 'item' and k.op == 'item':
            seen.add('named')
            ctx.check(cval_or(v.args[1]) == 1 and cval_or(k.args[1]) == 0, R,
                      'named', 'value %s gets name %s' % (
                          short(v), short(k)), ctx.where(n))
    for n in g.nodes:
        if n.kind == 'next' and isinstance(n.iter, Term) and \
                n.iter.op in ('pure', 'res'):
            fn = n.iter.args[0 if n.iter.op == 'pure' else 1]
            if fn is T('ext', 'builtins.enumerate'):
                args = n.iter.args[1 if n.iter.op == 'pure' else 2]
                kw = dict(n.iter.args[2 if n.iter.op == 'pure' else 3] or ())
                st = args[1] if len(args) > 1 else kw.get('start')
                ctx.check(st is None or cval(st) == 0, R,
                          'positional start', 'counting starts at %s' %
                          (short(st) if st is not None else 0), ctx.where(n))
                seen.add('positional')
    for k in ('positional', 'named'):
        ctx.check(k in seen, R, k + ' members', 'are not defined')
    # lookup by value
    inner = [f for f in ctx.prog.functions if f.name == '__new__' and
             f.parent is new]
    for f in inner:
        g = ctx.graph(f, inline=lambda x, w: False)
        g2 = refine(g)
        dom = dominators(g2)
        value = T('sym', f.params[1])
        name = T('sym', f.params[2]) if len(f.params) > 2 else None
        n = 0
        for r in g2.returns:
            fs = norm_facts([(x, p) for x, p, b in
                             facts_at(g2, r.id, dom)])
            if name is not None and not any(
                    c.op == 'cmp' and c.args[0] in ('is', '==') and
                    c.args[1] is name and p for c, p in fs):
                continue
            n += 1
            for v in alternatives(r.value):
                ok = v is value or \
                    v.op == 'sub' and v.args[1] is value or \
                    v.op == 'res' and value in v.args[2] and \
                    (v.args[1].op == 'attr' and v.args[1].args[1] in (
                        '__new__', 'get') or v.args[1].op == 'ext' and
                     v.args[1].args[0].endswith('__new__')) or \
                    v.op == 'pure' and value in v.args[1]
                ctx.check(ok, R, f.fullname + ' value',
                          'a raw value gives %s' % short(v), ctx.where(r))
                if v.op == 'sub':
                    d = v.args[0]
                    stores = [s for s in g.nodes if s.kind == 'setitem' and
                              s.obj is d]
                    ok = stores and all(s.key is value for s in stores)
                    ctx.check(bool(ok), R, f.fullname + ' table',
                              'looked up in a table keyed by %s' % (
                                  ', '.join(short(s.key) for s in stores)),
                              ctx.where(r))
        ctx.check(n > 0, R, f.fullname, 'raw values are not looked up')


def cval_or(x):
    return cval(x) if isinstance(x, Term) else x


def colour_rule(ctx):
    R = 'R05.colour'
    ctx.rule(R, 'the parts of a colour are its bytes, red lowest', 4)
    ci = ctx.prog.cls('hwp5.binmodel._shared', 'COLORREF')
    if ci is None:
        return
    ga = ctx.prog.method(ci, '__getattr__')
    for i, ch in enumerate('rgba'):
        fi, args = ga, None
        if ch in ci.members:
            fi = ctx.prog.method(ci, ch)
        elif ga is not None:
            args = {ga.params[1]: const(ch)}
        if fi is None:
            ctx.bad(R, 'COLORREF.' + ch, 'is not defined')
            continue
        g = ctx.graph(fi, inline=lambda f, w: True, args=args)
        vals = [x for r in g.returns for c, x in expand(r.value)
                if not (is_const(x) and x.args[0] is None)]
        srcs = None
        for x in vals:
            b = bits_of(x, lambda t: 32 if t.op in ('self', 'sym', 'inst')
                        else None)
            src = [y[0] for y in b.b if isinstance(y, tuple)] if b else []
            want = Bits([(src[0], 8 * i + j) for j in range(8)]) \
                if src else None
            ctx.check(b is not None and b == want, R, 'COLORREF.' + ch,
                      'is %s' % short(x))
        if not vals:
            ctx.bad(R, 'COLORREF.' + ch, 'has no value')


def applied_rule(ctx):
    R = 'R05.applied'
    ctx.rule(R, 'the raw word of every flags member is turned into its flags '
             'type', 1)
    f = ctx.prog.find_func('hwp5.bintype', 'evaluate_bin_values')
    if f is None:
        return
    g = ctx.graph(f, inline=lambda x, w: True)
    sets = [n for n in g.nodes if n.kind == 'setitem' and
            cval(n.key) == 'value']
    ctx.check(bool(sets), R, f.fullname, 'no flags value is converted')
    for n in sets:
        for v in alternatives(n.value):
            ok = v.op in ('res', 'pure') and 'flags_type' in str(v)
            ctx.check(ok, R, f.fullname + ' value', 'becomes %s' % short(v),
                      ctx.where(n))


witnesses = [
    ('mask', 'hwp5/dataio.py', '(msb + 1 - lsb)', '(msb - lsb)'),
    ('shift', 'hwp5/dataio.py', 'instance >> lsb', 'instance >> (lsb + 1)'),
    ('default msb', 'hwp5/dataio.py', 'msb = lsb\n            else:\n                assert False',
     'msb = lsb + 1\n            else:\n                assert False'),
    ('enum start', 'hwp5/dataio.py', 'enumerate(items)', 'enumerate(items, 1)'),
    ('field', 'hwp5/binmodel/tagid61_table.py', '0, 1, Split', '0, 2, Split'),
    ('enum swap', 'hwp5/binmodel/tagid61_table.py', 'BY_CELL=1, SPLIT=2',
     'BY_CELL=2, SPLIT=1'),
    ('colour', 'hwp5/binmodel/_shared.py', '(self & 0xff00) >> 8',
     '(self & 0xff00) >> 4'),
    ('named', 'hwp5/dataio.py', 'for k, v in moreitems.items():\n            setattr(cls, k, cls(v, k))',
     'for v, k in moreitems.items():\n            setattr(cls, k, cls(v, k))'),
    ('header flag', 'hwp5/filestructure.py', "2, 'distributable'",
     "3, 'distributable'"),
]

benign = [
    ('mask form', 'hwp5/dataio.py', 'return int(instance >> lsb) & int((2 ** (msb + 1 - lsb)) - 1)',
     'width = msb - lsb + 1\n        mask = (1 << width) - 1\n        return int((instance & (mask << lsb)) >> lsb)'),
    ('colour form', 'hwp5/binmodel/_shared.py', '(self & 0xff00) >> 8',
     '(self >> 8) & 0xff'),
    ('enum get', 'hwp5/dataio.py', '''                if value in instances_by_value:
                    return instances_by_value[value]
                else:
''', '''                known = instances_by_value.get(value)
                if known is not None:
                    return known
                else:
'''),
]
