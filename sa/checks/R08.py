# -*- coding: utf-8 -*-
"""R08 resolution of controls, list headers and control data."""
import json
import os

from ..terms import T, Term, is_const, cval, const, subterms, alternatives, \
    NONE
from ..cases import walk, either, notnone
from ..prog import ClassInfo, AnalysisError
from ..model import Model
from ..registry import Registry, key_text
from ..ctx import VERIF
from ._util import (short, refine, try_refine, lookup, part, parts, fn_args,
                    default_of, ret_values, is_none, term_values, reachable,
                    names_of_types)

TECHNIQUE = ('evaluation of the registration code per class into key tables '
             'compared with the tables of the format; shape agreement of the '
             'keys computed when reading with the keys registered; value-flow '
             'check of the parent and position tracking')
LEVEL_NOTE = ('Exact for the registered classes; the selection code is '
              'decided on its flow graph.')
EXPLANATION = '''The metaclass registration is evaluated for every model class
of the package, which gives the complete tables of control ids, list header
keys and control data parents; every key must have one class, the one of the
format. The key computed when a record is read must have the same components.
The flag that tells list headers before and after a table body apart must be
set by exactly the table body, on the context of the parent the key looks at,
and ids without a model must keep the generic one.'''

SPEC = os.path.join(VERIF, 'spec', 'registry.json')
MODELS = 'hwp5.binmodel'


def run(ctx):
    R = Registry(ctx.prog, ctx.layout)
    M = Model(ctx.prog, ctx.layout)
    tables_rule(ctx, R, M)
    key_rule(ctx, R, M)
    parent_rule(ctx)
    body_rule(ctx, M)
    fallback_rule(ctx)


def tables_rule(ctx, reg, M):
    R = 'R08.tables'
    ctx.rule(R, 'each key selects one model, the one the format names, and '
             'the model extends the generic one', 60)
    spec = json.load(open(SPEC))
    for name, want in sorted(spec.items()):
        if name == 'tag_models':
            continue
        have = {}
        for k, cs in reg.of_base(name).items():
            have.setdefault(key_text(k), []).extend(cs)
        where = [w for (m, t), w in reg.where.items() if t == name]
        for k, cs in sorted(have.items()):
            ctx.check(len(cs) == 1, R, '%s %s' % (name, k),
                      'is claimed by %s' % ', '.join(c.name for c in cs),
                      cs[-1].module.relpath)
        for k, names in sorted(want.items()):
            got = [c.name for c in have.get(k, [])]
            ctx.check(got == names, R, '%s %s' % (name, k), 'selects %s '
                      'instead of %s' % (', '.join(got) or 'nothing',
                                         ', '.join(names)))
        for k, cs in sorted(have.items()):
            for c in cs:
                imp = imported(ctx)
                ctx.check(c.module.name in imp, R, '%s %s' % (name, c.name),
                          'is in a module the package does not import',
                          c.module.relpath)
                g = generic_of(ctx, M, name)
                if g:
                    ctx.check(any(x in ctx.prog.mro(c) for x in g), R,
                              '%s %s base' % (name, c.name), 'does not '
                              'extend the generic record', c.module.relpath)


def imported(ctx):
    memo = ctx.prog.__dict__.get('_imp_binmodel')
    if memo is not None:
        return memo
    import ast
    seen = set()
    st = [MODELS]
    while st:
        m = st.pop()
        mod = ctx.prog.modules.get(m)
        if mod is None or m in seen:
            continue
        seen.add(m)
        if '.' in m:
            st.append(m.rpartition('.')[0])
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    p = a.name
                    while p:
                        st.append(p)
                        p = p.rpartition('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = ctx.prog._import_base(mod, n)
                st.append(base)
                for a in n.names:
                    st.append(base + '.' + a.name)
    ctx.prog._imp_binmodel = seen
    return seen


def generic_of(ctx, M, table):
    """record classes whose extension_types is the table"""
    out = []
    for c in M.classes:
        t = ctx.layout.class_const(c, 'extension_types') \
            if 'extension_types' in c.members else None
        if t is not None and t.op in ('gval', 'global') and \
                t.args[1] == table:
            out.append(c)
    return out


# -- the keys computed when reading -------------------------------------------

def key_rule(ctx, reg, M):
    R = 'R08.key'
    ctx.rule(R, 'the key computed for a record has the components of the '
             'registered keys', 3)
    forms = {'control_models': chid_key, 'list_header_models': list_key,
             'control_data_models': data_key}
    for table, form in forms.items():
        cs = generic_of(ctx, M, table)
        if not cs:
            ctx.bad(R, table, 'no record is looked up in this table')
        for c in cs:
            m = ctx.prog.method(c, 'get_extension_key')
            if m is None:
                ctx.bad(R, c.name, 'computes no key')
                continue
            ps = [p for p in m.params if p not in ('cls', 'self')]
            if len(ps) < 2:
                ctx.bad(R, c.name + ' parameters', 'are %s' % ', '.join(ps))
                continue
            g = refine(ctx.graph(m, inline=lambda f, w: True, self_cls=c,
                                 args={ps[0]: T('sym', 'context'),
                                       ps[1]: T('sym', 'model')}))
            vals = [(n, a) for n, a in ret_values(g) if not is_none(a)]
            ctx.check(bool(vals), R, c.name, 'never computes a key')
            for n, a in vals:
                why = form(a)
                ctx.check(why is None, R, c.name, '%s: %s' % (
                    why, short(a)), ctx.where(n))


CONTEXT = T('sym', 'context')
MODEL = T('sym', 'model')


def chid_key(t):
    if parts(t, ['content', 'chid']) is MODEL:
        return None
    return 'the key is not the control id of the record'


def parent_type(t):
    b = parts(t, ['parent', 1, 'type'])
    return b is CONTEXT


def list_key(t):
    if t.op != 'tuple' or len(t.args) != 2:
        return 'the key is not a pair'
    if not parent_type(t.args[0]):
        return 'the first component is not the type of the parent record'
    s = t.args[1]
    fn, args = fn_args(s)
    if fn is not None and fn.op == 'ext' and fn.args[0] == 'builtins.bool':
        s = args[0]
        if parts(s, ['parent', 0, 'seen_table_body']) is CONTEXT:
            return None
    if parts(s, ['parent', 0, 'seen_table_body']) is CONTEXT and \
            cval(default_of(s), 1) is False and default_of(s) is not None:
        return None
    if s.op == 'cmp' and s.args[0] == 'in' and \
            cval(s.args[1]) == 'seen_table_body' and \
            parts(s.args[2], ['parent', 0]) is CONTEXT:
        return None
    return 'the second component does not tell whether the parent has seen ' \
        'its table body'


def data_key(t):
    return None if parent_type(t) else \
        'the key is not the type of the parent record'


# -- parents ------------------------------------------------------------------

def parent_rule(ctx):
    R = 'R08.parent'
    ctx.rule(R, 'the parent of a record is the pair of context and model of '
             'the record one level above it', 2)
    hit = 0
    for f in ctx.prog.functions:
        if not f.module.name.startswith(MODELS) or f.is_lambda:
            continue
        g = ctx.graph(f, inline=lambda x, w: False)
        for n in g.nodes:
            if n.kind != 'setitem' or cval(n.key) != 'parent':
                continue
            hit += 1
            v = n.value
            ok = False
            if v.op == 'tuple' and len(v.args) == 2:
                a, b = v.args
                ok = is_last(a) and lookup(b, 'model') is a
            elif is_last(v):
                # what is stacked are (context, model) pairs
                src = last_of(v)
                pair = stacked(src)
                ok = pair is not None and pair.op == 'tuple' and \
                    len(pair.args) == 2 and \
                    part(pair.args[0], 0) is not None and \
                    part(pair.args[0], 0) is part(pair.args[1], 1)
            ctx.check(ok, R, f.fullname, 'the parent is %s' % short(v),
                      ctx.where(n))
    ctx.check(hit, R, MODELS, 'no record is given a parent')


def is_last(t):
    return last_of(t) is not None


def last_of(t):
    """s of s[-1], s the first component of what the ancestor tracking
    yields"""
    if t.op == 'sub' and cval(t.args[1]) == -1:
        b = part(t.args[0], 0)
        if b is not None and 'prefix_ancestors_from_level' in short(b, 4000):
            return b
    if t.op == 'item' and cval_int(t.args[1]) == -1:
        return part(t.args[0], 0)
    return None


def cval_int(x):
    return cval(x) if isinstance(x, Term) else x


def stacked(b):
    for x in subterms(b):
        if x.op == 'gencall':
            arg = x.args[1][0] if x.args[1] else None
            if arg is None:
                continue
            for y in subterms(arg):
                if y.op == 'comp':
                    e = y.args[1][0] if isinstance(y.args[1], tuple) \
                        else y.args[1]
                    if isinstance(e, Term) and e.op == 'tuple' and \
                            len(e.args) == 2:
                        return e.args[1]
    return None


# -- the table body -----------------------------------------------------------

def body_rule(ctx, M):
    R = 'R08.body'
    ctx.rule(R, 'a parent is told of each of its records after these are '
             'resolved; a table remembers exactly its table body', 3)
    tc = [c for c in M.classes if c.name == 'TableControl']
    for c in tc:
        m = ctx.prog.method(c, 'on_child')
        if m is None:
            ctx.bad(R, c.name, 'does not look at its records')
            continue
        ps = [p for p in m.params if p not in ('cls', 'self')]
        child = T('sym', 'child')
        own = T('sym', 'context')
        g = refine(ctx.graph(m, inline=lambda f, w: True, self_cls=c,
                             args={ps[1]: own, ps[2]: child}))
        tp = [t for n in g.nodes for v in term_values(n)
              for t in subterms(v) if parts(t, [1, 'type']) is child]
        ctx.check(bool(tp), R, c.name + ' child', 'does not look at the type '
                  'of the record')
        marks = [n for n in g.nodes if n.kind == 'setitem' and
                 cval(n.key) == 'seen_table_body' or n.kind == 'call' and
                 n.fn.op == 'attr' and n.fn.args[1] in ('setdefault',
                                                        'update') and
                 n.fn.args[0] is own]
        ctx.check(bool(marks), R, c.name + ' mark', 'does not remember the '
                  'table body')
        for n in marks:
            if n.kind == 'setitem':
                ctx.check(n.obj is own and cval(n.value) is True, R,
                          c.name + ' value', '%s is set to %s' % (
                              short(n.obj), short(n.value)), ctx.where(n))
        ids = {n.id for n in marks}
        for isbody in (True, False):
            seen = walk(g, [g.entry], is_type(tp, 'TableBody', isbody))
            if isbody:
                miss = walk(g, [g.entry], is_type(tp, 'TableBody', True),
                            stops=ids)
                lost = [x for x in miss if g.nodes[x].kind == 'exit-return']
                ctx.check(not lost, R, c.name + ' body', 'a table body can '
                          'go unnoticed')
            else:
                ctx.check(not (seen & ids), R, c.name + ' other', 'another '
                          'record is taken for the table body')
    # the notification
    f = ctx.need_func(MODELS, 'resolve_model_events')
    g = refine(ctx.graph(f, inline=lambda x, w: x.module is f.module and
                         not x.is_generator))
    calls = []
    for n in g.nodes:
        if n.kind != 'call' or len(n.args) != 3:
            continue
        for a in alternatives(n.fn):
            fn, args = fn_args(a)
            if fn is not None and fn.op == 'ext' and \
                    fn.args[0] == 'builtins.getattr' and \
                    len(args) > 1 and cval(args[1]) == 'on_child':
                calls.append((n, args[0]))
            elif a.op == 'attr' and a.args[1] == 'on_child':
                calls.append((n, a.args[0]))
    ctx.check(bool(calls), R, f.fullname, 'parents are not told of their '
              'records')
    for n, ptype in calls:
        ctxt, model = T('sym', f.params[0]), T('sym', f.params[1])
        ctx.check(parts(ptype, ['parent', 1, 'type']) is ctxt, R,
                  f.fullname + ' whom', '%s is told' % short(ptype),
                  ctx.where(n))
        ok = parts(n.args[0], ['parent', 1, 'content']) is ctxt and \
            parts(n.args[1], ['parent', 0]) is ctxt
        ctx.check(ok, R, f.fullname + ' parent', 'is told about %s' %
                  short(n.args[1]), ctx.where(n))
        c = n.args[2]
        ok = c.op == 'tuple' and len(c.args) == 2 and c.args[0] is ctxt and \
            c.args[1] is model
        ctx.check(ok, R, f.fullname + ' child', 'is given %s' % short(c),
                  ctx.where(n))
        # nothing of the record is resolved afterwards
        after = reachable(g, [n.id])
        late = [x for x in after if g.nodes[x].kind == 'setitem' and
                cval(g.nodes[x].key) in ('type', 'content')]
        ctx.check(not late, R, f.fullname + ' order', 'the record is '
                  'resolved after its parent was told', ctx.where(n))


def is_type(tps, name, yes):
    def ev(c):
        if c.op == 'cmp' and c.args[0] in ('is', 'is not', '==', '!='):
            for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if any(a is t for t in tps) and b.op == 'class' and \
                        b.args[0].name == name:
                    return yes == (c.args[0] in ('is', '=='))
        return None
    return ev


# -- ids without a model ------------------------------------------------------

def fallback_rule(ctx):
    R = 'R08.fallback'
    ctx.rule(R, 'a record whose key has no model keeps the generic model; '
             'one whose key has a model gets it, with its members', 2)
    f = ctx.need_func(MODELS, 'resolve_model_events')
    g = refine(ctx.graph(f, inline=lambda x, w: x.module is f.module and
                         not x.is_generator))
    ext = set()
    for n in g.nodes:
        for v in term_values(n):
            for t in subterms(v):
                fn, args = fn_args(t)
                if fn is not None and fn.op == 'attr' and \
                        fn.args[1] == 'get' and args and \
                        is_ext_types(fn.args[0]):
                    ext.add((t, args[0], args[1] if len(args) > 1 else NONE))
                if t.op == 'sub' and is_ext_types(t.args[0]):
                    ext.add((t, t.args[1], None))
    ctx.check(bool(ext), R, f.fullname, 'no model is looked up by a key')
    for t, key, dflt in ext:
        keyfn, kargs = fn_args(key)
        ok = keyfn is not None and keyfn.op == 'attr' and \
            keyfn.args[1] == 'get_extension_key' and \
            [a for a in kargs] == [T('sym', p) for p in f.params[:2]]
        if not ok and keyfn is not None and keyfn.op == 'func':
            ok = keyfn.args[0].name == 'get_extension_key'
        ctx.check(ok, R, f.fullname + ' key', 'is looked up by %s' %
                  short(key))
        if dflt is None:
            ctx.bad(R, f.fullname + ' unknown', 'an unknown key is an error')
            continue
        sets = {n.id for n in g.nodes if n.kind == 'setitem' and
                cval(n.key) == 'type' and any(a is t for a in
                                              alternatives(n.value))}
        starts = [n.id for n in g.nodes if n.kind == 'call' and
                  n.get('result') is t] or [g.entry]
        none = either(notnone(t, True), truthy(t, False))
        some = either(notnone(t, False), truthy(t, True))
        if dflt is NONE:
            seen = walk(g, starts, none)
            ctx.check(not (seen & sets), R, f.fullname + ' none',
                      'an unknown key replaces the generic model')
        seen = walk(g, starts, some, stops=sets)
        lost = [x for x in seen if g.nodes[x].kind == 'exit-return']
        ctx.check(not lost, R, f.fullname + ' some', 'a known model may not '
                  'be used')
        ctx.check(bool(sets), R, f.fullname + ' set', 'the model found is '
                  'not used')
        reads = {n.id for n in g.nodes if n.kind in ('call', 'mkgen') and
                 n.get('target') is not None and
                 n.target.name == 'get_extension_mro' or
                 n.kind in ('call', 'loop', 'next') and
                 any(t in set(subterms(v)) for v in term_values(n)) and
                 n.kind != 'branch' and n.get('result') is not t and
                 n.id not in starts}
        seen = walk(g, starts, some, stops=reads)
        lost = [x for x in seen if g.nodes[x].kind == 'exit-return']
        ctx.check(not lost, R, f.fullname + ' members', 'the members of the '
                  'model found may not be read')


def truthy(t, val):
    return lambda c: val if c is t else None


def is_ext_types(t):
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'ext' and fn.args[0] == \
            'builtins.getattr' and len(args) > 1:
        return cval(args[1]) == 'extension_types'
    return t.op == 'attr' and t.args[1] == 'extension_types'


witnesses = [
    ('dup', 'hwp5/binmodel/controls/bookmark_control.py', 'chid = CHID.BOKM',
     "chid = CHID.TBL"),
    ('keyflip', 'hwp5/binmodel/tagid56_list_header.py',
     "return model.get('type'), seen_table_body",
     "return seen_table_body, model.get('type')"),
    ('own', 'hwp5/binmodel/tagid56_list_header.py',
     "            context, model = context['parent']\n",
     "            context, _ = context['parent']\n"),
    ('flag', 'hwp5/binmodel/tagid56_list_header.py',
     "context.get('seen_table_body', False)",
     "context.get('seen_table_body')"),
    ('flagname', 'hwp5/binmodel/tagid56_list_header.py',
     "context.get('seen_table_body', False)",
     "context.get('seen_tablebody', False)"),
    ('cell', 'hwp5/binmodel/tagid56_list_header.py',
     "before_tablebody = True", "before_tablebody = False"),
    ('early', 'hwp5/binmodel/controls/table_control.py',
     "if child_model['type'] is TableBody:",
     "if child_model['type'] is not None:"),
    ('childctx', 'hwp5/binmodel/controls/table_control.py',
     "            context['seen_table_body'] = True",
     "            child_context['seen_table_body'] = True"),
    ('parent2', 'hwp5/binmodel/__init__.py', "context['parent'] = ancestors[-1]",
     "context['parent'] = ancestors[0]"),
    ('unknown', 'hwp5/binmodel/__init__.py',
     "if extension is not None:", "if True:"),
]
benign = [
    ('bool', 'hwp5/binmodel/tagid56_list_header.py',
     """        if 'parent' in context:
            context, model = context['parent']
            seen_table_body = context.get('seen_table_body', False)
            return model.get('type'), seen_table_body
""", """        if 'parent' not in context:
            return None
        pcontext, pmodel = context['parent']
        return pmodel.get('type'), bool(pcontext.get('seen_table_body'))
"""),
    ('eq', 'hwp5/binmodel/controls/table_control.py',
     """        child_context, child_model = child
        if child_model['type'] is TableBody:
            # referenced in ListHeader parsing
            context['seen_table_body'] = True
""", """        child_type = child[1].get('type')
        if child_type != TableBody:
            return
        context['seen_table_body'] = True
"""),
]
