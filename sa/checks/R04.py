# -*- coding: utf-8 -*-
"""R04 members, order, widths, counts and gates of records."""
import json

from ..terms import T, Term, is_const, cval, show, subterms, alternatives
from ..model import Model, wire_member, wire_type
from .. import facts
from ._util import (short, norm_facts, passes_through, dominators, facts_at,
                    reachable, refine, try_refine, dom_chain)

TECHNIQUE = ('extraction of the member lists from the class definitions '
             '(constant propagation through the attribute generators) compared '
             'with the format tables; value-flow rules for the generic reader')
LEVEL_NOTE = ('Exact for the declared members of all records; the generic '
              'reader is judged by value-flow rules at its decisions.')
EXPLANATION = '''The member list every record and structure class declares is
evaluated from the source (name, wire format, count, version, condition) and
compared member by member with spec/layout.json. The generic reader is judged
at each place where it unpacks a value, decides on a condition or a variant,
or repeats the items of an array.'''

CASES = 150


def run(ctx):
    M = Model(ctx.prog, ctx.layout)
    members_rule(ctx, M)
    types_rule(ctx, M)
    unpack_rule(ctx)
    engine_rules(ctx)
    order_rules(ctx, M)


def txt(x):
    return json.dumps(x, ensure_ascii=False, sort_keys=True)


def members_rule(ctx, M):
    R = 'R04.members'
    ctx.rule(R, 'each record and structure declares the members of the '
             'format, in order, with wire format, count, version and '
             'condition', 400)
    spec = facts.spec('layout.json')
    have = {}
    for c in M.classes:
        have[c.name] = c
    for name in sorted(spec):
        want = [wire_member(m) for m in spec[name]['members']]
        c = have.get(name)
        if c is None:
            if want:
                ctx.bad(R, name, 'the structure is no longer defined')
            continue
        got = [wire_member(m) for m in facts.jsonable(M.wire(c))]
        loc = 'src/hwp5/%s' % c.module.path.split('/hwp5/')[-1]
        for i in range(max(len(want), len(got))):
            w = want[i] if i < len(want) else None
            g = got[i] if i < len(got) else None
            if w is None:
                ctx.bad(R, '%s.%s' % (name, g['name']),
                        'is read but the format has no such member here',
                        loc)
                break
            if g is None:
                ctx.bad(R, '%s.%s' % (name, w['name']), 'is not read', loc)
                break
            if w['name'] != g['name']:
                ctx.bad(R, '%s.%s' % (name, w['name']),
                        'member %d read is %s' % (i, g['name']), loc)
                break
            diff = [k for k in sorted(set(w) | set(g))
                    if w.get(k) != g.get(k) and not k.startswith('extra_')]
            ctx.check(not diff, R, '%s.%s' % (name, w['name']),
                      'differs from the format: ' + '; '.join(
                          '%s is %s, should be %s' % (
                              k, txt(g.get(k))[:160], txt(w.get(k))[:160])
                          for k in diff), loc)
    for who, what in ctx.layout.problems:
        ctx.bad(R, getattr(who, 'fullname', str(who)), what)


def types_rule(ctx, M):
    R = 'R04.types'
    ctx.rule(R, 'each named value type has the wire format of the format '
             'document', 4)
    want = facts.spec('types.json')
    got = facts.type_facts(M)
    for n in sorted(want):
        if n not in got:
            ctx.note_missing = n
            continue
        w, g = want[n], got[n]
        ctx.check(strip(w) == strip(g), R, n, 'has wire format %s, should '
                  'have %s' % (txt(g), txt(w)))


def strip(d):
    if isinstance(d, dict):
        return {k: strip(v) for k, v in d.items() if k != 'primitive'}
    return d


# -- unpacking --------------------------------------------------------------

def unpack_rule(ctx):
    R = 'R04.unpack'
    ctx.rule(R, 'what is unpacked in a format is exactly as many bytes as the '
             'format describes, read in one piece from the stream, and the '
             'first field is the value', 1)
    prog = ctx.prog
    n = 0
    for f in prog.functions:
        if f.module.name not in ('hwp5.bintype', 'hwp5.dataio'):
            continue
        if not mentions_unpack(f):
            continue
        g = ctx.graph(f, inline=lambda x, w: x.name not in ('readn',))
        try:
            g = refine(g)
        except Exception:
            pass
        for c in g.nodes:
            if c.kind != 'call' or c.fn is not T('ext', 'struct.unpack'):
                continue
            n += 1
            fmt, data = c.args[0], c.args[1]
            if data.op == 'sym':
                continue        # a decode() over data the reader sized
            for d in alternatives(data):
                ok = sized(d, fmt)
                ctx.check(ok, R, '%s size' % f.fullname,
                          'unpacks %s from %s' % (short(fmt), short(d)),
                          ctx.where(c))
            for r in g.returns:
                for v in alternatives(r.value):
                    if c.result in set(subterms(v)):
                        ok = v.op == 'sub' and v.args[0] is c.result and \
                            cval(v.args[1]) == 0 or v.op == 'item' and \
                            v.args[0] is c.result and cval_or(v.args[1]) == 0
                        ctx.check(ok, R, '%s value' % f.fullname,
                                  'the value is %s' % short(v),
                                  ctx.where(r))
    if not n:
        ctx.bad(R, 'unpack', 'no member is unpacked by its format')
    prog_reads(ctx, R)


def cval_or(x):
    return cval(x) if isinstance(x, Term) else x


def sized(d, fmt):
    """d is readn(stream, calcsize(fmt)) / readn(stream, T.fixed_size)"""
    if d.op != 'res' or d.args[1].op != 'func' or \
            d.args[1].args[0].name != 'readn':
        return False
    size = d.args[2][1] if len(d.args[2]) > 1 else None
    if size is None:
        return False
    return all(size_ok(x, fmt) for x in alternatives(size))


def size_ok(s, fmt):
    if s.op in ('res', 'pure'):
        fn = s.args[1] if s.op == 'res' else s.args[0]
        args = s.args[2] if s.op == 'res' else s.args[1]
        if fn is T('ext', 'struct.calcsize') and args and \
                set(alternatives(args[0])) & set(alternatives(fmt)):
            return True
    if s.op == 'attr' and s.args[1] in ('fixed_size', 'size') and \
            fmt.op == 'attr' and s.args[0] is fmt.args[0]:
        return True
    return False


def mentions_unpack(f):
    import ast
    for n in f.body_nodes():
        if isinstance(n, ast.Attribute) and n.attr == 'unpack' or \
                isinstance(n, ast.Name) and n.id == 'unpack':
            return True
    return False


def prog_reads(ctx, R):
    """the hand-written readers: CHID, BSTR"""
    f = ctx.prog.find_func('hwp5.bintype', 'resolve_value_from_stream')
    if f is not None:
        g = ctx.graph(f, inline=lambda x, w: x.module.name == 'hwp5.bintype')
        item = T('sym', f.params[0])
        for c in g.nodes:
            if c.kind == 'call' and c.fn.op == 'func' and \
                    c.fn.args[0].cls is not None and \
                    c.fn.args[0].cls.name == 'CHID' and \
                    c.fn.args[0].name == 'decode' and c.args:
                for d in alternatives(c.args[-1]):
                    ok = d.op == 'res' and d.args[1].op == 'func' and \
                        d.args[1].args[0].name == 'readn' and \
                        cval(d.args[2][1]) == 4
                    ctx.check(ok, R, 'CHID size',
                              'a control id is read as %s' % short(d),
                              ctx.where(c))
            if c.kind == 'call' and c.fn.op == 'func' and \
                    c.fn.args[0].name == 'readn' and len(c.args) > 1 and \
                    c.args[1].op == 'attr':
                # the type whose size is read
                ok = type_of_item(c.args[1].args[0], item)
                ctx.check(ok, R, f.fullname + ' type',
                          'reads the size of %s' % short(c.args[1]),
                          ctx.where(c))
        carrier(ctx, R, f, g, item)
    b = ctx.prog.cls('hwp5.dataio', 'BSTR')
    fi = ctx.prog.method(b, 'read') if b else None
    if fi is not None:
        g = ctx.graph(fi, inline=lambda x, w: x.name not in (
            'readn', 'read', 'Primitive'))
        sizes = [c for c in g.nodes if c.kind == 'call' and
                 c.fn.op == 'func' and c.fn.args[0].name == 'readn']
        ctx.check(bool(sizes), R, 'BSTR.read data',
                  'the characters are not read')
        for c in sizes:
            s = c.args[1] if len(c.args) > 1 else None
            if s is None:
                continue
            if s.op == 'bin' and s.args[0] in ('*', '<<'):
                a, b2 = s.args[1], s.args[2]
                if is_const(a):
                    a, b2 = b2, a
                fac = cval(b2)
                ok = (fac == 2 and s.args[0] == '*' or
                      fac == 1 and s.args[0] == '<<') and \
                    is_uint16_read(a, ctx)
            elif s.op == 'bin' and s.args[0] == '+':
                ok = s.args[1] is s.args[2] and is_uint16_read(s.args[1], ctx)
            else:
                ok = False
            ctx.check(ok, R, 'BSTR.read size', 'reads %s bytes' % short(s),
                      ctx.where(c))
        for r in g.returns:
            for v in alternatives(r.value):
                if is_const(v):
                    continue
                enc = [x for x in subterms(v) if x.op in ('res', 'pure') and
                       decode_enc(x)]
                ok = bool(enc) and all(decode_enc(x) in UTF16LE for x in enc)
                ctx.check(ok, R, 'BSTR.read encoding',
                          'the characters are %s' % short(v), ctx.where(r))


UTF16LE = ('utf-16le', 'utf-16-le', 'utf_16_le', 'utf_16le', 'utf16le')


def decode_enc(x):
    fn = x.args[1] if x.op == 'res' else x.args[0]
    args = x.args[2] if x.op == 'res' else x.args[1]
    if fn.op == 'attr' and fn.args[1] == 'decode' and args:
        return str(cval(args[0], '?')).lower()
    if fn is T('ext', 'codecs.decode') and len(args) > 1:
        return str(cval(args[1], '?')).lower()
    return None


def is_uint16_read(t, ctx):
    """UINT16.read(f) - or an unpack of '<H'"""
    for x in alternatives(t):
        if x.op == 'res' and x.args[1].op == 'attr' and \
                x.args[1].args[1] == 'read':
            ty = ctx.layout.type_of(ctx.layout.walker(), x.args[1].args[0])
            if isinstance(ty, dict) and ty.get('binfmt') == '<H':
                continue
            return False
        y = [z for z in subterms(x) if z.op in ('res', 'pure') and
             (z.args[1] if z.op == 'res' else z.args[0]) is
             T('ext', 'struct.unpack')]
        if y and cval((y[0].args[2] if y[0].op == 'res' else
                       y[0].args[1])[0]) == '<H':
            continue
        return False
    return True


def type_of_item(t, item):
    for x in alternatives(t):
        if x.op in ('sub', 'getd') and x.args[0] is item and \
                cval(x.args[1]) in ('type', 'bin_type'):
            continue
        if x.op == 'res' and x.args[1].op == 'attr' and \
                x.args[1].args[0] is item and x.args[1].args[1] == 'get' \
                and cval(x.args[2][0]) in ('type', 'bin_type'):
            continue
        if x.op == 'pure' and x.args[0].op == 'attr' and \
                x.args[0].args[0] is item:
            continue
        return False
    return True


def carrier(ctx, R, f, g, item):
    """a flags member is read by its carrier type ('bin_type')"""
    used = any(cval(x) == 'bin_type' for n in g.nodes
               for k, v in n.d.items() if isinstance(v, Term)
               for x in subterms(v) if is_const(x))
    ctx.check(used, R, f.fullname + ' carrier', 'flags members are not read '
              'by their carrier type')


# -- the generic reader -------------------------------------------------------

def engine_rules(ctx):
    f = ctx.need_func('hwp5.bintype', 'resolve_typedefs')
    g = ctx.graph(f, inline=lambda x, w: x.module is f.module)
    dom = dominators(g)
    condition_rule(ctx, f, g)
    select_rule(ctx, f, g)
    count_rule(ctx, f, g)


def key_of_call(n, key):
    """n calls the value found under item[key]"""
    if n.kind != 'call':
        return None
    t = n.fn
    return keyed(t, key)


def keyed(t, key):
    """t is item[key] / item.pop(key) / item.get(key): the item"""
    if t.op == 'sub' and cval(t.args[1]) == key:
        return t.args[0]
    if t.op == 'res' and t.args[1].op == 'attr' and \
            t.args[1].args[1] in ('pop', 'get') and t.args[2] and \
            cval(t.args[2][0]) == key:
        return t.args[1].args[0]
    if t.op == 'pure' and t.args[0].op == 'attr' and \
            t.args[0].args[1] in ('pop', 'get') and t.args[1] and \
            cval(t.args[1][0]) == key:
        return t.args[0].args[0]
    if t.op in ('phi', 'ite'):
        r = [keyed(x, key) for x in alternatives(t)]
        r = [x for x in r if x is not None]
        return r[0] if r else None
    return None


def context_values(n):
    """the call passes (context, values of the enclosing structure)"""
    if len(n.args) != 2:
        return False
    a, b = n.args
    return a is T('sym', 'context') and keyed(b, 'value') is not None and \
        'stack' in show(b)


def is_ctx(t):
    return t.op == 'sym'


def kept(n, item):
    """the node hands the item on: yields it or puts it back at the head"""
    if n.kind == 'yield':
        return any(x is item for x in subterms(n.value))
    if n.kind == 'call' and n.fn.op == 'attr' and n.fn.args[1] in (
            'appendleft', 'extendleft', 'insert', 'append', 'send'):
        return any(x is item for a in n.args for x in subterms(a))
    return False


def sides(b, t, g):
    """(successors when t is true, successors when t is false)"""
    c, pol = b.cond, True
    while c.op == 'not':
        c, pol = c.args[0], not pol
    if c is not t:
        return None
    tt = [y for y, l in b.succ if l == ('T' if pol else 'F')]
    ff = [y for y, l in b.succ if l == ('F' if pol else 'T')]
    return tt, ff


def decide(ctx, R, g, what, b, tt, ff, item):
    """truthy side keeps the item on every path, falsy side drops it with its
    whole subtree"""
    loops = main_loop(g, b)
    keep = {n.id for n in g.nodes if kept(n, item)}
    lost = passes_through(g, tt, loops, keep)
    ctx.check(not lost, R, what + ' kept',
              'a member that is present can be lost', ctx.where(b))
    reach = set(passes_through(g, ff, keep, loops))
    ctx.check(not reach, R, what + ' dropped',
              'a member that is absent is still read', ctx.where(b))
    # the sub-members go with it
    region = reachable(g, ff, avoid=loops)
    eat = [n for n in region if g.nodes[n].kind == 'next' or
           g.nodes[n].kind == 'call' and g.nodes[n].fn.op == 'attr' and
           g.nodes[n].fn.args[1] in ('popleft',)]
    ctx.check(bool(eat), R, what + ' subtree',
              'the parts of an absent member are still read', ctx.where(b))


def main_loop(g, n):
    """heads of the loops around n"""
    out = set()
    up = set(dom_chain(dominators(g)[0], n.id))
    for h in g.nodes:
        if h.kind == 'loop' and h.id in up and not h.get('comp') and \
                n.id in reachable(g, [h.id]) and \
                h.id in reachable(g, [n.id]):
            out.add(h.id)
    return out


def condition_rule(ctx, f, g):
    R = 'R04.condition'
    ctx.rule(R, 'a member with a condition is read exactly when the '
             'condition holds for the values read before it', 1)
    calls = [n for n in g.nodes if key_of_call(n, 'condition') is not None]
    if not calls:
        ctx.bad(R, f.fullname, 'no condition is evaluated')
    for n in calls:
        item = keyed(n.fn, 'condition')
        ctx.check(len(n.args) == 2 and is_ctx(n.args[0]) and
                  keyed(n.args[1], 'value') is not None, R,
                  f.fullname + ' arguments', 'the condition is evaluated on '
                  '(%s)' % ', '.join(short(a) for a in n.args),
                  ctx.where(n))
        found = False
        for b in g.nodes:
            if b.kind == 'branch':
                s = sides(b, n.result, g)
                if s:
                    found = True
                    decide(ctx, R, g, f.fullname, b, s[0], s[1], item)
        if not found:
            ctx.bad(R, f.fullname + ' decides', 'nothing depends on the '
                    'condition', ctx.where(n))


def select_rule(ctx, f, g):
    R = 'R04.select'
    ctx.rule(R, 'a variant is read exactly when its case equals the selector '
             'computed from the values read before it', 1)
    n_ok = 0
    for b in g.nodes:
        if b.kind != 'branch':
            continue
        c, pol = b.cond, True
        while c.op == 'not':
            c, pol = c.args[0], not pol
        if c.op != 'cmp' or c.args[0] not in ('==', '!='):
            continue
        a, d = c.args[1], c.args[2]
        if keyed(a, 'select_when') is None:
            a, d = d, a
        item = keyed(a, 'select_when')
        if item is None:
            continue
        n_ok += 1
        eq = (c.args[0] == '==') == pol
        tt = [y for y, l in b.succ if l == ('T' if eq else 'F')]
        ff = [y for y, l in b.succ if l == ('F' if eq else 'T')]
        decide(ctx, R, g, f.fullname, b, tt, ff, item)
        # the key compared with is the selector of the innermost variant
        ok = keyed(d, 'select_key') is not None or \
            'selector_reference' in show(d) or d.op in ('sub', 'loopvar')
        ctx.check(ok, R, f.fullname + ' key', 'compared with %s' % short(d),
                  ctx.where(b))
    if not n_ok:
        ctx.bad(R, f.fullname, 'no variant is selected by its case')
    sel = [n for n in g.nodes if n.kind == 'call' and n.fn.op == 'attr' and
           n.fn.args[1] == 'selector_reference']
    if not sel:
        ctx.bad(R, f.fullname + ' selector', 'no selector is evaluated')
    for n in sel:
        ctx.check(len(n.args) == 2 and is_ctx(n.args[0]) and
                  keyed(n.args[1], 'value') is not None, R,
                  f.fullname + ' selector arguments',
                  'evaluated on (%s)' % ', '.join(short(a) for a in n.args),
                  ctx.where(n))
        ok = any(x.kind == 'setitem' and x.value is n.result or
                 x.kind == 'call' and x.fn.op == 'attr' and
                 x.fn.args[1] == 'append' and x.args and
                 n.result in set(subterms(x.args[0]))
                 for x in g.nodes)
        ctx.check(ok, R, f.fullname + ' selector kept',
                  'the selector value is not kept', ctx.where(n))


def count_rule(ctx, f, g):
    R = 'R04.count'
    ctx.rule(R, 'an array has as many items as its size, the count word '
             'before it, or the referenced member say', 1)
    hit = False
    for n in g.nodes:
        if n.kind != 'next' or n.iter is None:
            continue
        it = n.iter
        fn = it.args[0] if it.op == 'pure' else it.args[1] \
            if it.op == 'res' else None
        if fn is None or fn.op != 'ext' or fn.args[0] not in (
                'builtins.range', 'six.moves.range', 'itertools.repeat',
                'builtins.xrange', 'six.moves.xrange'):
            continue
        args = it.args[1] if it.op == 'pure' else it.args[2]
        if fn.args[0] == 'itertools.repeat':
            args = args[1:]
        if len(args) > 1:
            ctx.check(cval(args[0]) == 0 and len(args) == 2, R,
                      f.fullname + ' range', 'repeats %s' % short(it),
                      ctx.where(n))
            bound = args[1]
        else:
            bound = args[0]
        hit = True
        kinds = set()
        for a in alternatives(bound):
            k = count_kind(a)
            if a.op == 'loopvar' or a.op == 'unbound' or \
                    is_const(a) and a.args[0] is None:
                continue
            kinds.add(k)
            ctx.check(k is not None, R, '%s bound' % f.fullname,
                      'an array is repeated %s times' % short(a),
                      ctx.where(n))
        for k in ('count_reference', 'counttype', 'size'):
            ctx.check(k in kinds, R, '%s %s' % (f.fullname, k),
                      'arrays counted by %s are not repeated' % k,
                      ctx.where(n))
    for n in g.nodes:
        if n.kind == 'call' and n.fn.op == 'attr' and \
                n.fn.args[1] == 'count_reference':
            ctx.check(len(n.args) == 2 and is_ctx(n.args[0]) and
                      keyed(n.args[1], 'value') is not None, R,
                      f.fullname + ' reference arguments',
                      'evaluated on (%s)' % ', '.join(
                          short(a) for a in n.args), ctx.where(n))
    if not hit:
        ctx.bad(R, f.fullname, 'arrays are not repeated')


def count_kind(a):
    if a.op == 'res' and a.args[1].op == 'attr' and \
            a.args[1].args[1] == 'count_reference':
        return 'count_reference'
    if a.op == 'attr' and a.args[1] == 'size':
        return 'size'
    if keyed(a, 'value') is not None and 'counttype' in show(a.args[0]):
        return 'counttype'
    if keyed(a, 'value') is not None:
        return 'counttype'
    if keyed(a, 'count') is not None:
        return None
    return None


def order_rules(ctx, M):
    R = 'R04.order'
    ctx.rule(R, 'a record is read as the members of its base record followed '
             'by those of each extension, outermost base first', 2)
    # the model classes name their members through the declared generator
    f = ctx.prog.find_func('hwp5.binmodel', 'resolve_model_events')
    if f is None:
        ctx.broken('anchor not found: resolve_model_events')
    g = ctx.graph(f, inline=lambda x, w: x.name not in (
        'resolve_type_events', 'get_extension_mro'))
    order = [n for n in g.nodes if n.kind in ('call', 'mkgen') and
             callee(n) == 'resolve_type_events']
    ctx.check(len(order) >= 2, R, f.fullname,
              'only %d of base record and extension are read' % len(order))
    first = [n for n in order if n.args and is_lookup(n.args[0])]
    ext = [n for n in order if n not in first]
    ctx.check(bool(first), R, f.fullname + ' base', 'the members of the base '
              'record are not read')
    dom = dominators(g)
    for n in ext:
        ok = any(dominates(dom, b.id, n.id) for b in first)
        ctx.check(ok, R, f.fullname + ' sequence', 'an extension is read '
                  'before the base record', ctx.where(n))
    # the extension classes come from the reversed mro up to the base
    h = ctx.prog.find_func('hwp5.binmodel', 'get_extension_mro')
    if h is not None:
        gh = ctx.graph(h)
        for r in gh.returns:
            s = show(r.value, -50) if False else full(r.value)
            ok = 'reversed' in s or '[slice(None, None, -1)]' in s or \
                'sorted' in s
            ctx.check(ok, R, h.fullname, 'classes are read in the order %s' %
                      s[:100], ctx.where(r))
            ok = 'getmro' in s or '__mro__' in s or '.mro' in s
            ctx.check(ok, R, h.fullname + ' classes', 'classes are %s' %
                      s[:100], ctx.where(r))
        own = any('attributes' in full(v) for n in gh.nodes
                  for v in (n.get('cond'), n.get('value'))
                  if isinstance(v, Term))
        ctx.check(own, R, h.fullname + ' own', 'classes without own members '
                  'are read again')
    # what is read is merged into the content
    upd = [n for n in g.nodes if n.kind == 'call' and n.fn.op == 'attr' and
           n.fn.args[1] == 'update']
    ctx.check(bool(upd) or not ext, R, f.fullname + ' content',
              'the members of an extension are not added to the content')
    # the list of members is the declared one, complete and in order
    s = ctx.prog.cls('hwp5.dataio', 'StructType')
    bm = ctx.prog.find_func('hwp5.bintype', 'bintype_map_events')
    if bm is not None:
        gm = ctx.graph(bm, inline=lambda x, w: False)
        its = [n for n in gm.nodes if n.kind == 'next' and
               isinstance(n.iter, Term) and 'members' in full(n.iter) and
               n.iter.op != 'gencall']
        ctx.check(bool(its), R, bm.fullname, 'the members of a structure are '
                  'not visited')
        for n in its:
            ok = n.iter.op == 'attr' and n.iter.args[1] == 'members' or \
                n.iter.op in ('res', 'pure') and 'getattr' in full(n.iter)
            ctx.check(ok, R, bm.fullname + ' order', 'members are visited as '
                      '%s' % short(n.iter), ctx.where(n))


def full(t):
    return show(t) if not isinstance(t, Term) else _full(t)


def _full(t):
    out = []
    for x in subterms(t):
        if x.op == 'attr':
            out.append('.' + x.args[1])
        elif x.op == 'ext':
            out.append(x.args[0])
        elif x.op == 'const':
            out.append(repr(x.args[0]))
        elif x.op == 'slice' or x.op == 'sub':
            out.append(show(x)[-40:])
        elif x.op in ('func', 'gencall'):
            out.append(getattr(x.args[0], 'name', ''))
    return ' '.join(out)


def callee(n):
    if n.kind == 'call':
        return n.fn.args[0].name if n.fn.op == 'func' else None
    t = n.get('target')
    return t.name if t is not None else None


def is_lookup(t):
    """the model found in the tag table"""
    return any(x.op in ('gval', 'global') and 'tag_models' in x.args[:2]
               for x in subterms(t)) and 'extension' not in _full(t)


def dominates(dom, a, b):
    return a == b or a in dom_chain(dom[0], b)


witnesses = [
    ('condition', 'hwp5/bintype.py',
     "if not condition(context, parent_struct['value']):",
     "if condition(context, parent_struct['value']):"),
    ('width', 'hwp5/binmodel/tagid26_style.py', 'UINT16, \'parashape_id\'',
     'UINT32, \'parashape_id\''),
    ('order', 'hwp5/binmodel/_shared.py',
     "        yield HWPUNIT16, 'left'\n        yield HWPUNIT16, 'right'",
     "        yield HWPUNIT16, 'right'\n        yield HWPUNIT16, 'left'"),
    ('count', 'hwp5/bintype.py', 'for _ in range(0, count)',
     'for _ in range(1, count)'),
    ('count2', 'hwp5/bintype.py', 'for _ in range(0, count)',
     'for _ in range(0, count - 1)'),
    ('select', 'hwp5/bintype.py', 'if select_when != select_key:',
     'if select_when == select_key:'),
    ('subtree', 'hwp5/bintype.py', '''                            condition)
                logger.debug('  %s', (ev, item))
                if ev is STARTEVENT:
                    for x in pop_subevents(events):
                        logger.debug('  %s', x)
                        pass
''', '''                            condition)
'''),
    ('bstr', 'hwp5/dataio.py', 'readn(f, 2 * size)', 'readn(f, size)'),
    ('chid', 'hwp5/bintype.py', 'readn(stream, 4)', 'readn(stream, 2)'),
    ('primitive', 'hwp5/dataio.py', "HWPUNIT16 = Primitive('HWPUNIT16', int, '<h')",
     "HWPUNIT16 = Primitive('HWPUNIT16', int, '<H')"),
    ('version', 'hwp5/binmodel/tagid61_table.py', 'version=(5, 0, 0, 7)',
     'version=(5, 0, 1, 7)'),
    ('mro', 'hwp5/binmodel/__init__.py', '    mro = reversed(mro)\n    return mro',
     '    return mro'),
]

benign = [
    ('condition positive', 'hwp5/bintype.py', '''            if not condition(context, parent_struct['value']):
                # just consume and skip this tree
                logger.debug('skip following: (not matched condition: %s)',
                             condition)
                logger.debug('  %s', (ev, item))
                if ev is STARTEVENT:
                    for x in pop_subevents(events):
                        logger.debug('  %s', x)
                        pass
                continue
            events.appendleft((ev, item))
''', '''            holds = condition(context, parent_struct['value'])
            if holds:
                events.appendleft((ev, item))
            else:
                if ev is STARTEVENT:
                    for x in pop_subevents(events):
                        logger.debug('  %s', x)
'''),
    ('unpack', 'hwp5/bintype.py', '''        bytes = readn(stream, binsize)
        unpacked = struct.unpack(binfmt, bytes)
        return unpacked[0]
''', '''        value, = struct.unpack(binfmt, readn(stream, binsize))
        return value
'''),
    ('skip helper', 'hwp5/bintype.py', [("""            if select_when != select_key:
                # just consume and skip this tree
                logger.debug('skip following: (select key %r != %r)',
                             select_key, select_when)
                logger.debug('  %s', (ev, item))
                if ev is STARTEVENT:
                    for x in pop_subevents(events):
                        logger.debug('  %s', x)
                        pass
                continue
""", """            if select_when != select_key:
                skip_tree(events, ev)
                continue
"""), ('def resolve_typedefs(', """def skip_tree(events, ev):
    if ev is not STARTEVENT:
        return
    for x in pop_subevents(events):
        logger.debug('  %s', x)


def resolve_typedefs(""")]),
]
