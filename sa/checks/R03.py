# -*- coding: utf-8 -*-
"""R03 tag numbers and the models they select."""
from ..terms import T, Term, is_const, cval, show, subterms, alternatives
from ..model import Model
from ..registry import Registry, key_text
from .. import facts
from ._util import short, call_name

TECHNIQUE = ('table extraction by constant propagation (tag table, model '
             'registry) compared with the format tables; value-flow of the '
             'model selection')
LEVEL_NOTE = ('Exact for the tag table and the registry as built at import; '
              'the format table is the committed spec/tags.json.')
EXPLANATION = '''The tag table is evaluated from the module text by constant
propagation, the model registry from the metaclass code and the class bodies;
both are compared with spec/tags.json and spec/registry.json. The selection of
the model for a record is followed through the value-flow graph.'''


def run(ctx):
    prog = ctx.prog
    R = 'R03.numbers'
    ctx.rule(R, 'every tag name has the number of the format, and names and '
             'numbers are one-to-one', 40)
    want = facts.spec('tags.json')
    have = facts.tag_facts(prog)
    for nm in sorted(want):
        ctx.check(have.get(nm) == want[nm], R, nm,
                  'is %s, the format says %s' % (have.get(nm), want[nm]),
                  'src/hwp5/tagids.py')
    table = facts.tagnames(prog)
    if table is None:
        ctx.bad(R, 'tagnames', 'the tag table is not a constant table')
        return
    nums, names = {}, {}
    for num, nm in table:
        if num in nums:
            ctx.bad(R, 'number %s' % num, 'given to %s and %s' % (
                nums[num], nm), 'src/hwp5/tagids.py')
        if nm in names:
            ctx.bad(R, 'name %s' % nm, 'given to %s and %s' % (
                names[nm], num), 'src/hwp5/tagids.py')
        nums[num] = nm
        names[nm] = num
        ctx.check(have.get(nm) == num, R, 'table entry %s' % num,
                  'table says %s is %s but the name is %s' % (
                      nm, num, have.get(nm)), 'src/hwp5/tagids.py')
    for nm in want:
        if nm != 'HWPTAG_BEGIN':
            ctx.check(nm in names, R, 'listed %s' % nm,
                      'is not in the tag table')
    R = 'R03.models'
    ctx.rule(R, 'each record tag selects exactly one model, the one the '
             'format names, and only known tags select a model', 40)
    reg = Registry(prog, ctx.layout)
    models = reg.of_base('tag_models')
    if not models:
        # the registry moved: any table keyed by the tag numbers
        for (m, t), d in reg.tables.items():
            if all(isinstance(k, int) for k in d) and len(d) > 20:
                models = d
    sreg = facts.spec('registry.json')['tag_models']
    for k, cs in models.items():
        ctx.check(len(cs) == 1, R, 'tag %s' % key_text(k),
                  'selects %s' % [c.name for c in cs])
        ctx.check(k in nums, R, 'known tag %s' % key_text(k),
                  '%s is registered under %s, which is not a known tag' % (
                      cs[0].name, key_text(k)))
    for num, nm in table:
        ctx.check(num in models, R, 'model for %s' % nm, 'no record model')
    for k, (name,) in sreg.items():
        cs = models.get(int(k), [])
        ctx.check([c.name for c in cs] == [name], R,
                  'tag %s selects %s' % (k, name),
                  'selects %s' % [c.name for c in cs])
    select_rule(ctx)
    name_rule(ctx)


def select_rule(ctx):
    R = 'R03.select'
    ctx.rule(R, 'the model of a record is looked up by the tag number of '
             'that record, with the generic model for unknown tags', 2)
    prog = ctx.prog
    generic = prog.cls('hwp5.binmodel', 'UnknownTagModel')
    n = 0
    for f in prog.functions:
        if not f.module.name.startswith('hwp5.') or f.cls is not None:
            continue
        if 'tag_models' not in ast_names(f):
            continue
        g = ctx.graph(f, inline=lambda f, w: False)
        for c in g.nodes:
            if c.kind == 'call' and c.fn.op == 'attr' and \
                    is_tag_models(c.fn.args[0]) and \
                    c.fn.args[1] == 'get':
                key = c.args[0]
                if not handles_record(key):
                    continue
                ok = key.op == 'sub' and cval(key.args[1]) == 'tagid'
                ctx.check(ok, R, f.fullname + ' key',
                          'looked up by %s' % short(key), ctx.where(c))
                d = c.args[1] if len(c.args) > 1 else None
                # default, or a later test for None
                ok = d is not None and d.op == 'class' and d.args[0] is \
                    generic or falls_back(g, c, generic)
                ctx.check(ok, R, f.fullname + ' default',
                          'unknown tags select %s' % (
                              short(d) if d is not None else None),
                          ctx.where(c))
                stored(ctx, R, g, c)
                n += 1
            elif c.kind == 'getitem' and is_tag_models(c.obj):
                key = c.key
                if not handles_record(key):
                    continue
                ok = key.op == 'sub' and cval(key.args[1]) == 'tagid'
                ctx.check(ok, R, f.fullname + ' key',
                          'looked up by %s' % short(key), ctx.where(c))
                n += 1


def handles_record(key):
    """the key is taken from some record rather than given by the caller or
    by an enumeration of the tags"""
    return key.op == 'sub' and isinstance(cval(key.args[1]), str)


def falls_back(g, c, generic):
    for n in g.nodes:
        for v in (n.get('value'), n.get('result')):
            if isinstance(v, Term) and T('class', generic) in \
                    alternatives(v):
                return True
    return False


def stored(ctx, R, g, c):
    """the looked-up model is what the record is decoded as"""
    r = c.result
    key = c.args[0]
    rec = key.args[0] if key.op == 'sub' else None
    ok = False
    for n in g.nodes:
        if n.kind == 'setitem' and cval(n.key) == 'type' and n.obj is rec \
                and r in set(subterms(n.value)):
            ok = True
    ctx.check(ok, R, '%s stores' % c.func.fullname,
              'the looked-up model is not stored as the type of the record '
              'it was looked up for', ctx.where(c))


def is_tag_models(t):
    return t.op in ('gval', 'global') and t.args[1] == 'tag_models'


def ast_names(f):
    import ast
    return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}


def name_rule(ctx):
    R = 'R03.tagname'
    ctx.rule(R, 'the name of a record is the name the table has for its own '
             'tag number', 1)
    fi = ctx.prog.find_func('hwp5.recordstream', 'tagname')
    if fi is None:
        return
    g = ctx.graph(fi)
    p = T('sym', fi.params[0])
    for n in g.returns:
        hits = [x for x in subterms(n.value) if (
            x.op == 'res' and x.args[1].op == 'attr' and
            x.args[1].args[1] == 'get' and x.args[2][:1] == (p,)) or
            x.op == 'sub' and x.args[1] is p or
            x.op == 'pure' and p in x.args[1]]
        other = [x for x in subterms(n.value) if p in set(subterms(x))]
        ctx.check(bool(hits) or bool(other), R, fi.fullname,
                  'returns %s' % short(n.value), ctx.where(n))
    fi = ctx.prog.find_func('hwp5.recordstream', 'Record')
    if fi is not None and 'tagid' in fi.params:
        g = ctx.graph(fi, inline=lambda f, w: False)
        tag = T('sym', 'tagid')
        for n in g.returns:
            if n.value.op != 'dict':
                continue
            for k, v in n.value.args:
                if cval(k) == 'tagname':
                    ok = v.op == 'res' and v.args[2] == (tag,) or \
                        v.op == 'pure' and v.args[1] == (tag,) or \
                        tag in set(subterms(v))
                    ctx.check(ok, R, 'Record.tagname', 'is %s' % short(v),
                              ctx.where(n))


witnesses = [
    ('number', 'hwp5/tagids.py', "HWPTAG_BEGIN + 75: 'HWPTAG_FORM_OBJECT'",
     "HWPTAG_BEGIN + 73: 'HWPTAG_FORM_OBJECT'"),
    ('swap models', 'hwp5/binmodel/tagid77_memo_list.py',
     'tagid = HWPTAG_MEMO_LIST',
     'tagid = HWPTAG_MEMO_SHAPE + 1 + 20'),
    ('base', 'hwp5/tagids.py', 'HWPTAG_BEGIN = 0x010', 'HWPTAG_BEGIN = 0x011'),
    ('lookup', 'hwp5/binmodel/__init__.py', "tag_models.get(model['tagid'],",
     "tag_models.get(model['level'],"),
    ('default', 'hwp5/binmodel/__init__.py',
     "UnknownTagModel)\n\n    for ev", "RecordModel)\n\n    for ev"),
]

benign = [
    ('pairs', 'hwp5/tagids.py', 'for k, v in tagnames.items():\n    globals()[v] = k\ndel k, v',
     'globals().update((name, number) for number, name in tagnames.items())'),
    ('two steps', 'hwp5/binmodel/__init__.py',
     """    model['type'] = model_type = tag_models.get(model['tagid'],
                                                UnknownTagModel)
""", """    tagid = model['tagid']
    model_type = tag_models.get(tagid)
    if model_type is None:
        model_type = UnknownTagModel
    model['type'] = model_type
"""),
]
