# -*- coding: utf-8 -*-
"""R07 version gating."""
from ..terms import T, Term, is_const, cval, const, subterms, alternatives, \
    NONE
from ..cases import walk, rel, notnone, either
from ..prog import ClassInfo
from ._util import short, refine, try_refine, reachable

TECHNIQUE = ('case analysis of the version filter over the four relations of '
             'required and actual version on its flow graph, dependency '
             'check of cache keys, and value-flow tracing of the version from '
             'the file header to every record context')
LEVEL_NOTE = ('Exact for the filter and the caches; the tracing covers every '
              'construction of a version carrying item and every context '
              'passed on by the record parsers.')
EXPLANATION = '''The filter over member events is evaluated for: no required
version; actual version lower, equal and higher. In the lower case no path may
hand the member on, and its sub-members must be consumed; in the others no
path may lose it. Every value kept in a module-level table must be kept under
all the parameters it was computed from and be returned only for the same
ones. Every record context must carry the version of its stream, which must
come from the header of its own file.'''

ENGINE = ('hwp5.bintype', 'hwp5.binmodel', 'hwp5.recordstream',
          'hwp5.xmlmodel', 'hwp5.xmldump_flat', 'hwp5.filestructure')


def run(ctx):
    gate_rule(ctx)
    cache_rule(ctx)
    source_rule(ctx)
    context_rule(ctx)
    decode_rule(ctx)


# -- the filter ---------------------------------------------------------------

def version_lookup(t):
    """t is item['version'] / item.get('version')"""
    if t.op == 'sub' and cval(t.args[1]) == 'version':
        return t.args[0]
    if t.op in ('res', 'pure'):
        fn, args = (t.args[1], t.args[2]) if t.op == 'res' else \
            (t.args[0], t.args[1])
        if fn.op == 'attr' and fn.args[1] in ('get', 'pop') and args and \
                cval(args[0]) == 'version' and (
                    len(args) < 2 or args[1] is NONE):
            return fn.args[0]
    return None




def gate_rule(ctx):
    R = 'R07.gate'
    ctx.rule(R, 'a member is handed on exactly when it requires no version, '
             'or one that is not later than the version of the document; '
             'with an omitted member its parts are omitted', 4)
    f = ctx.prog.find_func('hwp5.bintype', 'get_compiled_typedef_with_version')
    if f is None:
        ctx.broken('anchor not found: get_compiled_typedef_with_version')
    # the filter: the generator of the module that gets the version
    filters = []
    g = ctx.graph(f, inline=lambda x, w: x.module is f.module)
    for n in g.nodes:
        if n.kind == 'mkgen' and len(n.args) >= 2 and \
                any(a is T('sym', 'version') for a in n.args):
            filters.append(n.target)
    ctx.check(bool(filters), R, f.fullname, 'the members are not filtered by '
              'the version')
    for ff in filters:
        one_filter(ctx, R, ff)


def one_filter(ctx, R, f):
    g = refine(ctx.graph(f, inline=lambda x, w: x.module is f.module))
    evs = [n for n in g.nodes if n.kind == 'next' and
           n.iter is T('sym', f.params[0])]
    if not evs:
        ctx.bad(R, f.fullname, 'does not go through the events')
        return
    version = T('sym', 'version') if 'version' in f.params else \
        T('sym', f.params[1])
    heads = {n.id for n in g.nodes if n.kind == 'loop' and
             n.iter is T('sym', f.params[0])}
    req = set()
    for n in g.nodes:
        for v in n.d.values():
            if isinstance(v, Term):
                req.update(t for t in subterms(v)
                           if version_lookup(t) is not None and
                           version_lookup(t).op != 'sym')
    ctx.check(bool(req), R, f.fullname + ' required', 'the required version '
              'is not looked at')
    for nx in evs:
        for r in req:
            item = version_lookup(r)
            for name, val in (
                    ('none', notnone(r, True)),
                    ('lower', either(notnone(r, False), rel(version, r, -1))),
                    ('equal', either(notnone(r, False), rel(version, r, 0))),
                    ('higher', either(notnone(r, False),
                                      rel(version, r, 1)))):
                val = either(val, has_key(item, name != 'none'))
                start = [y for y, l in nx.succ if l == 'T']
                keep = {n.id for n in g.nodes if n.kind == 'yield' and
                        item in set(subterms(n.value))}
                stops = heads | keep | {
                    n.id for n in g.nodes
                    if n.kind == 'exit-return'}
                seen = walk(g, start, val, stops)
                kept = seen & keep
                lost = seen & (heads | {x for x in stops if g.nodes[x].kind ==
                                        'exit-return'})
                if name == 'lower':
                    ctx.check(not kept, R, '%s %s' % (f.fullname, name),
                              'a member of a later version is read',
                              ctx.where(g.nodes[min(kept)]) if kept else None)
                    skip_subtree(ctx, R, f, g, start, val, heads, item)
                else:
                    ctx.check(not lost, R, '%s %s' % (f.fullname, name),
                              'a member is left out whose required version '
                              'is %s' % {'none': 'not given',
                                         'equal': 'the document\'s',
                                         'higher': 'earlier'}[name],
                              ctx.where(nx))


def has_key(item, present):
    def ev(c):
        if c.op == 'cmp' and c.args[0] in ('in', 'not in') and \
                cval(c.args[1]) == 'version' and c.args[2] is item:
            return present == (c.args[0] == 'in')
        return None
    return ev


def start_test(c, start=True):
    if c.op == 'cmp' and any(x.op in ('class', 'gval', 'global') and
                             'STARTEVENT' in short(x) for x in c.args[1:]):
        if c.args[0] in ('is', '=='):
            return start
        if c.args[0] in ('is not', '!='):
            return not start
    return None


def skip_subtree(ctx, R, f, g, start, val, heads, item):
    """with a start event the events up to its end are consumed"""
    events = T('sym', f.params[0])
    eat = set()
    for n in g.nodes:
        if n.kind == 'mkgen' and n.target.name in (
                'iter_subevents',) and n.args and n.args[0] is events:
            eat.add(n.id)
    if not eat:
        for n in g.nodes:
            if n.kind == 'call' and n.target is not None and \
                    n.args and n.args[0] is events:
                eat.add(n.id)
            if n.kind == 'next' and n.iter is not None and \
                    n.iter is not events and events in set(subterms(n.iter)):
                eat.add(n.id)
    v2 = either(start_test, val)
    seen = walk(g, start, v2, heads | eat)
    ctx.check(not (seen & heads), R, f.fullname + ' subtree', 'the parts of '
              'an omitted member are read', None)
    v3 = either(lambda c: start_test(c, False), val)
    seen = walk(g, start, v3, heads)
    ctx.check(not (seen & eat), R, f.fullname + ' leaf', 'events that follow '
              'an omitted simple member are lost with it', None)
    # and consumed completely
    for n in g.nodes:
        if n.id in eat and n.kind == 'mkgen':
            used = any(m.kind == 'next' and m.iter is n.result or
                       m.kind == 'call' and any(a is n.result
                                                for a in m.args)
                       for m in g.nodes) or used_pure(g, n.result)
            ctx.check(used, R, f.fullname + ' consumed', 'the parts are not '
                      'consumed', ctx.where(n))


def used_pure(g, t):
    return any(isinstance(v, Term) and t in set(subterms(v))
               for n in g.nodes if n.kind not in ('mkgen',)
               for v in n.d.values())


# -- caches -------------------------------------------------------------------

def table_stores(g):
    """(node, root table, key terms, value) of stores into tables that
    outlive the call"""
    alias = {}
    for n in g.nodes:
        if n.kind == 'setitem' and n.value.op in ('dict', 'res', 'pure'):
            alias.setdefault(n.value, []).append(n)
    out = []

    def chain(o, depth=0):
        keys = []
        while o.op == 'sub':
            keys.append(o.args[1])
            o = o.args[0]
        while o.op in ('res', 'pure'):
            fn, args = (o.args[1], o.args[2]) if o.op == 'res' else \
                (o.args[0], o.args[1])
            if fn.op == 'attr' and fn.args[1] in ('setdefault', 'get') and \
                    args:
                keys.append(args[0])
                o = fn.args[0]
                while o.op == 'sub':
                    keys.append(o.args[1])
                    o = o.args[0]
            else:
                break
        if o.op in ('gval', 'global'):
            return [(o, keys)]
        if o.op in ('phi', 'ite'):
            r = []
            for a in alternatives(o):
                r += [(x, keys + k) for x, k in chain(a, depth + 1)]
            return r
        if depth < 4 and o in alias:
            r = []
            for m in alias[o]:
                if m.obj is not o:
                    r += [(x, keys + [m.key] + k)
                          for x, k in chain(m.obj, depth + 1)]
            return r
        return []

    for n in g.nodes:
        if n.kind == 'setitem':
            for root, keys in chain(n.obj):
                out.append((n, root, keys + [n.key], n.value))
        elif n.kind == 'call' and n.fn.op == 'attr' and \
                n.fn.args[1] == 'setdefault' and len(n.args) == 2:
            for root, keys in chain(n.fn.args[0]):
                out.append((n, root, keys + [n.args[0]], n.args[1]))
    return out


def params_in(t, f):
    ps = {T('sym', p) for p in f.params}
    return {x for x in subterms(t) if x in ps}


def cache_rule(ctx):
    R = 'R07.cache'
    ctx.rule(R, 'a value kept in a module-level table is kept under '
             'everything it was computed from', 2)
    for f in ctx.prog.functions:
        if f.module.name not in ('hwp5.bintype', 'hwp5.binmodel'):
            continue
        if f.is_lambda:
            continue
        g = ctx.graph(f, inline=lambda x, w: False)
        if not table_stores(g):
            continue
        g = try_refine(g)
        for n, root, keys, val in table_stores(g):
            deps = params_in(val, f)
            missing = [d for d in deps if d not in keys and
                       not any(k.op == 'tuple' and d in k.args for k in keys)]
            ctx.check(not missing, R, '%s %s' % (f.fullname, root.args[1]),
                      'the value depends on %s, the key does not' % ', '.join(
                          short(d) for d in missing), ctx.where(n))
            # a hit is looked up under the same keys
        hits(ctx, R, f, g)


def hits(ctx, R, f, g):
    st = table_stores(g)
    roots = {root for n, root, keys, val in st}
    full = max([len(keys) for n, root, keys, val in st] or [0])
    for n in g.nodes:
        if n.kind != 'return' or n.value is None:
            continue
        for a in alternatives(n.value):
            o, keys = a, []
            while o.op == 'sub':
                keys.append(o.args[1])
                o = o.args[0]
            if o in roots and keys:
                want = [set(k) for m, root, k, v in st if root is o and
                        len(k) == full]
                ctx.check(not want or any(set(keys) == w for w in want), R,
                          '%s hit %s' % (f.fullname, o.args[1]), 'is '
                          'answered from the entry of %s' % ', '.join(
                              short(k) for k in keys), ctx.where(n))


# -- where versions come from -------------------------------------------------

def source_rule(ctx):
    R = 'R07.source'
    ctx.rule(R, 'the version of every stream is that of the header of the '
             'file it was opened from', 6)
    for mod in ('hwp5.filestructure', 'hwp5.recordstream', 'hwp5.binmodel',
                'hwp5.xmlmodel'):
        k = ctx.prog.cls(mod, 'Hwp5File')
        if k is None:
            continue
        me = T('inst', k, 'self')
        for name, sub in (('DocInfo', None), ('BodyText', 'Section0'),
                          ('ViewText', 'Section0')):
            e = 'self.__getitem__(%r)' % name
            if sub:
                e += '.__getitem__(%r)' % sub
            g = ctx.query('def q(self):\n    return %s.version' % e,
                          args={'self': me})
            vals = [n.value for n in refine(g).nodes
                    if n.kind == 'exit-return']
            for v in {a for v in vals for a in alternatives(v)}:
                ok = v.op == 'attr' and v.args[1] == 'version' and \
                    v.args[0].op == 'attr' and v.args[0].args[0] is me and \
                    v.args[0].args[1] in ('header', 'fileheader') or \
                    header_version(v, me)
                ctx.check(ok, R, '%s.Hwp5File %s' % (mod, name),
                          'has the version %s' % short(v))
            ctx.check(bool(vals), R, '%s.Hwp5File %s reachable' % (mod, name),
                      'cannot be looked up')
    # the header attribute is the header of the file itself
    k = ctx.need_class('hwp5.filestructure', 'Hwp5File')
    me = T('inst', k, 'self')
    h = ctx.need_class('hwp5.filestructure', 'HwpFileHeader')
    m = ctx.prog.method(k, 'get_fileheader')
    if m is not None:
        g = refine(ctx.graph(m, self_cls=k))
        for n in g.nodes:
            if n.kind == 'return':
                for v in alternatives(n.value):
                    a = ctx.prog.__dict__.get('ctor_args', {}).get(v)
                    ok = v.op == 'inst' and v.args[0] is h and a and \
                        len(a[0]) == 1 and any(
                            is_const(x) and x.args[0] == 'FileHeader'
                            for x in subterms(a[0][0]))
                    ctx.check(bool(ok), R, m.fullname, 'the header is %s'
                              % short(v), ctx.where(n))
    gv = ctx.prog.method(h, 'get_version')
    if gv is not None:
        g = refine(ctx.graph(gv, self_cls=h))
        for n in g.nodes:
            if n.kind == 'return':
                v = n.value
                ctx.check(v.op == 'sub' and cval(v.args[1]) == 'version', R,
                          gv.fullname, 'the version is %s' % short(v),
                          ctx.where(n))
    # the header itself is read without a version
    for c in ctx.layout.struct_classes():
        if c.name == 'FileHeader':
            for mm in ctx.layout.own_members(c) or []:
                ctx.check('version' not in mm, R, 'FileHeader.%s' %
                          mm['name'], 'needs a version to be read')


def header_version(v, me):
    return v.op == 'sub' and cval(v.args[1]) == 'version' and \
        any(is_const(x) and x.args[0] == 'FileHeader' for x in subterms(v))


# -- contexts -----------------------------------------------------------------

PASS = ('parse_models', 'parse_models_intern', 'init_record_parsing_context',
        'resolve_models', 'resolve_model_events', 'parse_model',
        'resolve_type_events', 'eval_typedef_events', 'resolve_typedefs',
        'parse_models_with_parent')


def context_rule(ctx):
    R = 'R07.context'
    ctx.rule(R, 'every record context carries the version of its stream, '
             'unchanged', 6)
    n_in = 0
    for f in ctx.prog.functions:
        if f.module.name not in ENGINE or f.is_lambda or \
                f.name in ('attributes', 'basic_attrs', 'main'):
            continue
        g = ctx.graph(f, inline=lambda x, w: False)
        for n in g.nodes:
            for where, v in versions_written(n):
                ok = own_version(v)
                if is_declared(v):
                    continue
                n_in += 1
                ctx.check(ok, R, '%s %s' % (f.fullname, where),
                          'the version becomes %s' % short(v), ctx.where(n))
            if n.kind in ('mkgen', 'call') and n.get('target') is not None \
                    and n.target.name in PASS and n.target.module.name in (
                        'hwp5.bintype', 'hwp5.binmodel'):
                passed(ctx, R, f, n)
        if f.name == 'init_record_parsing_context':
            for n in g.nodes:
                if n.kind == 'return':
                    base = T('sym', f.params[0])
                    ctx.check(base in set(subterms(n.value)), R, f.fullname,
                              'the record context does not build on the '
                              'stream context', ctx.where(n))
        if f.name in ('models', 'parse_model_events') and \
                f.module.name == 'hwp5.binmodel':
            has = any(True for n in g.nodes for w, v in versions_written(n))
            ctx.check(has, R, f.fullname + ' enters', 'no version is given')


def versions_written(n):
    if n.kind == 'setitem' and cval(n.key) == 'version':
        yield 'stores', n.value
    if n.kind == 'call' and n.fn.op == 'attr' and \
            n.fn.args[1] == 'setdefault' and len(n.args) == 2 and \
            cval(n.args[0]) == 'version':
        yield 'default', n.args[1]
    seen = set()
    for key, v in n.d.items():
        vs = v if isinstance(v, tuple) else (v,)
        for x in vs:
            if isinstance(x, tuple) and len(x) == 2:
                x = x[1]
            if not isinstance(x, Term):
                continue
            for t in subterms(x):
                if t.op == 'dict' and t not in seen:
                    seen.add(t)
                    names = {cval(a[0]) for a in t.args
                             if isinstance(a, tuple) and len(a) == 2}
                    if 'type' in names or 'name' in names:
                        continue
                    for a in t.args:
                        if isinstance(a, tuple) and len(a) == 2 and \
                                cval(a[0]) == 'version':
                            yield 'entry', a[1]


def is_declared(v):
    """not a document version: text for output, a constant"""
    return v.op in ('const', 'pure', 'res', 'fmt', 'bin') or \
        v.op == 'tuple' and all(is_const(x) for x in v.args)


def own_version(v):
    if v.op == 'phi' or v.op == 'ite':
        return all(own_version(a) for a in alternatives(v))
    return v.op == 'attr' and v.args[1] == 'version' and (
        v.args[0].op in ('inst',) or v.args[0].op == 'attr' and
        v.args[0].args[1] in ('header', 'fileheader') or
        v.args[0].op == 'sym')


def passed(ctx, R, f, n):
    """the context handed on is, or contains, the own one"""
    t = n.target
    if 'context' not in t.params and 'base' not in t.params:
        return
    i = t.params.index('context' if 'context' in t.params else 'base')
    if i < len(n.args):
        a = n.args[i]
    else:
        a = dict(n.kw).get('context')
    if a is None:
        return
    ok = False
    va = f.node.args.kwarg
    own = [p for p in ('context', 'base') if p in f.params] or \
        (['**' + va.arg] if va else f.params)
    for x in subterms(a):
        if x.op == 'sym' and x.args[0] in own:
            ok = True
        if x.op == 'dict':
            for kv in x.args:
                if isinstance(kv, tuple) and len(kv) == 2 and \
                        cval(kv[0]) == 'version' and own_version(kv[1]):
                    ok = True
    if not ok and f.module.name == 'hwp5.xmldump_flat' and \
            a.op == 'dict' and not a.args:
        # the file header itself is read without a version
        ok = any(y.op == 'class' and y.args[0].name == 'FileHeader'
                 for y in n.args)
    if not ok and a.op == 'dict' and f.module.name == 'hwp5.filestructure':
        ok = True
    ctx.check(ok, R, '%s -> %s' % (f.fullname, t.name), 'the context %s is '
              'not the stream\'s' % short(a), ctx.where(n))


def decode_rule(ctx):
    R = 'R07.decode'
    ctx.rule(R, 'the version is decoded most significant number first', 1)
    c = ctx.need_class('hwp5.filestructure', 'VERSION')
    m = ctx.prog.method(c, 'decode')
    if m is None:
        ctx.bad(R, 'VERSION', 'has no decoder')
        return
    g = ctx.graph(m, inline=lambda f, w: True)
    rets = [n for n in g.nodes if n.kind == 'return']
    for n in rets:
        ok = n.value.op == 'tuple' and len(n.value.args) == 4 and \
            [byte_index(x) for x in n.value.args] == [3, 2, 1, 0]
        v = n.value
        if not ok and v.op in ('pure', 'res'):
            s = short(v, 400)
            ok = 'reversed' in s or '::-1' in s or \
                'slice(None, None, -1)' in s
        ctx.check(ok, R, m.fullname, 'the version is %s' % short(v),
                  ctx.where(n))


def byte_index(x):
    if x.op == 'pure' and x.args[0].op == 'ext' and \
            x.args[0].args[0] in ('builtins.ord', 'builtins.int'):
        return byte_index(x.args[1][0])
    if x.op in ('item',):
        return x.args[1] if not isinstance(x.args[1], Term) else \
            cval(x.args[1])
    if x.op == 'sub':
        return cval(x.args[1])
    return None


witnesses = [
    ('le', 'hwp5/bintype.py', 'version < required_version',
     'version <= required_version'),
    ('prefix', 'hwp5/bintype.py', 'version < required_version',
     'version[:3] < required_version[:3]'),
    ('subtree', 'hwp5/bintype.py', """            if ev is STARTEVENT:
                for x in iter_subevents(events):
                    pass
            continue
        yield ev, item


def make""", """            continue
        yield ev, item


def make"""),
    ('cache', 'hwp5/bintype.py', 'if version not in versioned_typedefs:\n'
     '        versioned_typedefs[version] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[version]',
     'typedefs = versioned_typedefs'),
    ('cache2', 'hwp5/bintype.py', 'if version not in versioned_typedefs:\n'
     '        versioned_typedefs[version] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[version]',
     'typedefs = versioned_typedefs.setdefault(version[:2], {})'),
    ('source', 'hwp5/filestructure.py',
     'return self.section_class(self.wrapped[name], self.version)',
     'return self.section_class(self.wrapped[name], (5, 0, 0, 0))'),
    ('fresh', 'hwp5/binmodel/__init__.py',
     "(dict(context, record=record, model=dict(record))",
     "(dict(record=record, model=dict(record))"),
    ('none', 'hwp5/binmodel/__init__.py',
     'context = dict(version=self.version)', 'context = dict()'),
]
benign = [
    ('not-ge', 'hwp5/bintype.py',
     "if required_version is not None and version < required_version:",
     "if not (required_version is None or version >= required_version):"),
    ('keep', 'hwp5/bintype.py', """        if required_version is not None and version < required_version:
            # just consume and skip this tree
            logger.debug('skip following: (required version: %s)',
                         required_version)
            logger.debug('  %s', (ev, item))
            if ev is STARTEVENT:
                for x in iter_subevents(events):
                    pass
            continue
        yield ev, item
""", """        if required_version is None:
            yield ev, item
        elif required_version <= version:
            yield ev, item
        elif ev is STARTEVENT:
            deque(iter_subevents(events), maxlen=0)
"""),
    ('cache', 'hwp5/bintype.py', 'if version not in versioned_typedefs:\n'
     '        versioned_typedefs[version] = typedefs = dict()\n'
     '    typedefs = versioned_typedefs[version]',
     'typedefs = versioned_typedefs.setdefault(version, {})'),
    ('pair', 'hwp5/bintype.py', [
        ('if version not in versioned_typedefs:\n'
         '        versioned_typedefs[version] = typedefs = dict()\n'
         '    typedefs = versioned_typedefs[version]\n', ''),
        ('if type not in typedefs:',
         'key = (type, version)\n    if key not in versioned_typedefs:'),
        ('typedefs[type] = events\n\n    return typedefs[type]',
         'versioned_typedefs[key] = events\n\n'
         '    return versioned_typedefs[key]')]),
    ('helper', 'hwp5/bintype.py', [
        ("if required_version is not None and version < required_version:",
         "if is_future(required_version, version):"),
        ("def filter_with_version(", """def is_future(required, version):
    if required is None:
        return False
    return required > version


def filter_with_version(""")]),
]
