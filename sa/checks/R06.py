# -*- coding: utf-8 -*-
"""R06 members depend only on members read before them."""
from ..terms import T, Term, is_const, cval, show, subterms, canon
from ..layout import implies
from ..model import Model, wire_type
from .. import facts
from ._util import short

TECHNIQUE = ('def-use analysis over the member lists: every reference of a '
             'condition, count or selector is matched with an earlier member '
             'whose version and condition are implied by those of the user')
LEVEL_NOTE = 'Exact for the declared members of all records.'
EXPLANATION = '''For every member of every record and structure, the values
its condition, element count or variant selector reads are extracted from the
function it is computed by; each must be a member declared earlier in the same
structure (or a member of the parent record), present whenever the user is
present, and have the flag that is read.'''

# which record a parent reference is about
PARENT = {'ParaCharShape': 'Paragraph', 'ParaLineSeg': 'Paragraph',
          'ParaRangeTag': 'Paragraph', 'ParaText': 'Paragraph'}


def run(ctx):
    R = 'R06.refs'
    ctx.rule(R, 'every member that is looked at was read earlier, under '
             'every version and condition under which it is looked at', 25)
    ctx.rule('R06.flags', 'every flag that is looked at exists in the flags '
             'word it is looked up in', 10)
    ctx.rule('R06.counts', 'every element count is an integer member', 4)
    ctx.rule('R06.parent', 'every member of the parent record that is looked '
             'at is one the parent always has', 2)
    M = Model(ctx.prog, ctx.layout)
    byname = {c.name: c for c in M.classes}
    for c in M.classes:
        ms = M.own(c) or []
        scan(ctx, M, byname, c.name, ms, 'src/hwp5/%s' %
             c.module.path.split('/hwp5/')[-1])
    scope_rule(ctx)


def scan(ctx, M, byname, cname, ms, loc):
    for i, m in enumerate(ms):
        for role, text in uses(m):
            t = ctx.layout.terms.get(text)
            if t is None:
                if text in ('always', 'never'):
                    continue
                ctx.bad('R06.refs', '%s.%s %s' % (cname, m['name'], role),
                        'cannot be traced: %s' % text[:100], loc)
                continue
            base = []
            if role != 'condition' and 'condition' in m:
                base = [(ctx.layout.terms[m['condition']], True)] \
                    if m['condition'] in ctx.layout.terms else []
            for kind, chain, known in refs(t, base):
                one(ctx, M, byname, cname, ms, i, m, role, kind, chain,
                    known, loc)
        for sub in nested(m['type']):
            scan(ctx, M, byname, '%s.%s' % (cname, m['name']), sub, loc)


def uses(m):
    if 'condition' in m:
        yield 'condition', m['condition']
    t = m['type']
    st = [t]
    while st:
        t = st.pop()
        if not isinstance(t, dict):
            continue
        if 'select' in t:
            yield 'selector', t['select']
            if isinstance(t.get('cases'), dict):
                st.extend(t['cases'].values())
        if isinstance(t.get('count'), str) and 'xarray' in t:
            yield 'count', t['count']
        for k in ('array', 'narray', 'xarray'):
            if k in t:
                st.append(t[k])


def nested(t):
    st = [t]
    while st:
        t = st.pop()
        if isinstance(t, dict):
            if 'members' in t:
                yield t['members']
            for k in ('array', 'narray', 'xarray'):
                if k in t:
                    st.append(t[k])
            if isinstance(t.get('cases'), dict):
                st.extend(t['cases'].values())


def refs(t, known):
    """(kind, access chain, facts known there)"""
    VALUES, CONTEXT = T('sym', 'values'), T('sym', 'context')
    out = []

    def chain_of(x):
        c = []
        while True:
            if x.op == 'attr':
                c.append(('.', x.args[1]))
                x = x.args[0]
            elif x.op == 'sub':
                c.append(('[', cval(x.args[1], show(x.args[1]))))
                x = x.args[0]
            elif x.op == 'item':
                c.append(('#', x.args[1] if not isinstance(x.args[1], Term)
                          else cval(x.args[1])))
                x = x.args[0]
            else:
                return x, tuple(reversed(c))

    def go(x, known):
        if isinstance(x, tuple):
            for y in x:
                go(y, known)
            return
        if not isinstance(x, Term):
            return
        if x.op in ('attr', 'sub', 'item'):
            root, c = chain_of(x)
            if root is VALUES:
                out.append(('own', c, list(known)))
                return
            if root is CONTEXT:
                out.append(('context', c, list(known)))
                return
        if x.op in ('res', 'pure'):
            fn = x.args[1] if x.op == 'res' else x.args[0]
            args = x.args[2] if x.op == 'res' else x.args[1]
            if fn.op == 'attr' and fn.args[1] == 'get':
                return      # a lookup that may find nothing
            if fn is T('ext', 'builtins.getattr') and len(args) == 2 and \
                    is_const(args[1]):
                go(T('attr', args[0], args[1].args[0]), known)
                return
        if x.op in ('and', 'or'):
            k = list(known)
            for y in x.args:
                go(y, k)
                k = k + [(y, x.op == 'and')]
            return
        if x.op == 'ite':
            go(x.args[0], known)
            go(x.args[1], known + [(x.args[0], True)])
            go(x.args[2], known + [(x.args[0], False)])
            return
        for y in x.args:
            go(y, known)
    go(t, known)
    return out


def one(ctx, M, byname, cname, ms, i, m, role, kind, chain, known, loc):
    who = '%s.%s' % (cname, m['name'])
    if kind == 'context':
        # context['parent'][1]['content'][x]
        keys = [k for _, k in chain]
        if 'content' in keys:
            j = keys.index('content')
            if j + 1 < len(keys):
                parent_ref(ctx, M, byname, cname, who, chain[j + 1:], role,
                           loc)
        return
    if not chain or chain[0][0] != '[':
        ctx.bad('R06.refs', '%s %s' % (who, role), 'looks at %s of the values'
                % (chain[:1],), loc)
        return
    name = chain[0][1]
    tgt = [(j, r) for j, r in enumerate(ms) if r['name'] == name]
    what = '%s %s uses %s' % (who, role, name)
    if not tgt:
        ctx.bad('R06.refs', what, 'the structure has no member %s' % name,
                loc)
        return
    before = [r for j, r in tgt if j < i]
    if not before:
        ctx.bad('R06.refs', what, '%s is read later' % name, loc)
        return
    ok = any(present(ctx, r, m, known) for r in before)
    ctx.check(ok, 'R06.refs', what, '%s need not have been read (version %s, '
              'condition %s)' % (name, before[-1].get('version'),
                                 before[-1].get('condition')), loc)
    type_ref(ctx, M, byname, what, before[-1]['type'], chain[1:], role, loc)


def present(ctx, r, m, known):
    vr, vm = r.get('version'), m.get('version')
    if vr is not None and (vm is None or list(vr) > list(vm)):
        return False
    if 'condition' in r:
        t = ctx.layout.terms.get(r['condition'])
        if t is None or not implies(known, t):
            return False
    return True


def type_ref(ctx, M, byname, what, ty, rest, role, loc):
    if rest and rest[0][0] == '.':
        flag = rest[0][1]
        ok = isinstance(ty, dict) and 'flags' in ty and \
            any(f[0] == flag for f in ty['fields'])
        ctx.check(ok, 'R06.flags', what + '.' + flag,
                  'there is no flag %s' % flag, loc)
        if role == 'count' and ok:
            f = [f for f in ty['fields'] if f[0] == flag][0]
            ctx.check(f[3] == 'int', 'R06.counts', what + '.' + flag,
                      'is not a number', loc)
        return
    if role == 'count' and not rest:
        ok = isinstance(ty, dict) and 'binfmt' in ty and \
            ty['binfmt'][-1] in 'BHILQbhilq'
        ctx.check(ok, 'R06.counts', what, 'is not a number: %s' % str(ty)[:80],
                  loc)


def parent_ref(ctx, M, byname, cname, who, chain, role, loc):
    name = chain[0][1]
    what = '%s %s uses PARENT.%s' % (who, role, name)
    pn = PARENT.get(cname.split('.')[0])
    cands = [byname[pn]] if pn in byname else \
        [c for c in M.classes if M.is_record(c)]
    found = None
    for c in cands:
        for r in M.wire(c):
            if r['name'] == name:
                found = r
    ok = found is not None and 'condition' not in found and \
        'version' not in found
    ctx.check(ok, 'R06.parent', what, 'the parent record %s does not always '
              'have %s' % (pn or '', name), loc)
    if found is not None:
        type_ref(ctx, M, byname, what, found['type'], chain[1:], role, loc)


def scope_rule(ctx):
    """every value is stored under its name as soon as it is complete, before
    the next member is looked at"""
    R = 'R06.scope'
    ctx.rule(R, 'a value is entered into its structure under its own name '
             'before the next member is decided on', 1)
    f = ctx.prog.find_func('hwp5.bintype', 'construct_composite_values')
    if f is None:
        return
    g = ctx.graph(f, inline=lambda x, w: x.module is f.module)
    sets = [n for n in g.nodes if n.kind == 'setitem' and
            n.key.op == 'sub' and cval(n.key.args[1]) == 'name']
    ctx.check(bool(sets), R, f.fullname, 'values are not entered under their '
              'names')
    for n in sets:
        it = n.key.args[0]
        ok = n.value.op == 'sub' and n.value.args[0] is it and \
            cval(n.value.args[1]) == 'value'
        ctx.check(ok, R, f.fullname + ' value', 'under its name %s is '
                  'entered' % short(n.value), ctx.where(n))
        # entered before the item is handed on
        ys = [y.id for y in g.nodes if y.kind == 'yield']
        from ._util import dominators, dom_chain, reachable
        late = any(n.id in reachable(g, [s for s, l in g.nodes[y].succ],
                                     avoid=heads(g)) for y in ys)
        ctx.check(not late, R, f.fullname + ' early', 'the value is entered '
                  'after the item was handed on', ctx.where(n))


def heads(g):
    return {n.id for n in g.nodes if n.kind == 'loop'}


witnesses = [
    ('later', 'hwp5/binmodel/tagid61_table.py',
     "X_ARRAY(UINT16, ref_member('rows'))",
     "X_ARRAY(UINT16, ref_member('borderfill_id'))"),
    ('missing', 'hwp5/binmodel/tagid61_table.py',
     "X_ARRAY(UINT16, ref_member('rows'))",
     "X_ARRAY(UINT16, ref_member('row'))"),
    ('flag', 'hwp5/binmodel/tagid20_border_fill.py',
     "values['fillflags'].gradation", "values['fillflags'].gradient"),
    ('parent', 'hwp5/binmodel/tagid53_para_line_seg.py',
     "ref_parent_member('linesegs')", "ref_parent_member('lines')"),
    ('guard', 'hwp5/binmodel/tagid60_shape_component.py',
     "return (values['chid'] == CHID.RECT and\n            "
     "values['fill_flags'].fill_image)",
     "return values['fill_flags'].fill_image"),
]
benign = [
    ('nested-if', 'hwp5/binmodel/tagid60_shape_component.py',
     "return (values['chid'] == CHID.RECT and\n            "
     "values['fill_flags'].fill_image)",
     "if values['chid'] != CHID.RECT:\n        return False\n"
     "    flags = values['fill_flags']\n    return flags.fill_image"),
]
