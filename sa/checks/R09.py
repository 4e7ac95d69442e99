# -*- coding: utf-8 -*-
"""R09 decoding failures surface as parse errors that name their place."""
from ..terms import T, Term, is_const, cval, const, subterms, alternatives, \
    NONE
from ..cases import walk, either, notnone
from ..prog import ClassInfo, AnalysisError
from ..flow import dominators, facts_at, dom_chain
from ._util import (short, refine, try_refine, lookup, part, parts, fn_args,
                    ret_values, is_none, term_values, reachable,
                    names_of_types, norm_facts, returns)

TECHNIQUE = ('exception-flow analysis: every exceptional edge of the value '
             'decoding is traced through the event pipeline to the '
             'construction of the parse error, whose fields are checked; '
             'handler audit over the decoding call closure')
LEVEL_NOTE = ('Exceptions raised by record payload decoding; a level jump '
              'between records is reported outside of the payload and not '
              'judged here.')
EXPLANATION = '''The decoder call must be covered by a catch-all handler which
turns the event into an error event carrying the exception; every stage the
events pass afterwards must hand error events on without looking at the
missing value; the stage that ends the pipeline must raise the package's parse
error for every error event and for every exception of conditions, counts and
keys, with cause, path, record and offset set from the failing item. No
handler in the closure of the decoding functions may complete normally.'''

CATCHALL = ('Exception', 'BaseException')
ENGINE = ('hwp5.bintype', 'hwp5.binmodel')


def run(ctx):
    capture_rule(ctx)
    forward_rule(ctx)
    raise_rule(ctx)
    pipe_rule(ctx)
    swallow_rule(ctx)
    complete_rule(ctx)
    report_rule(ctx)


def catch_all(n):
    return n.kind == 'handler' and (not n.types or any(
        x in CATCHALL for x in names_of_types(n.types)))


def is_error_class(t):
    return t.op == 'class' and isinstance(t.args[0], ClassInfo) and \
        t.args[0].name == 'ERROREVENT'


# -- capture ------------------------------------------------------------------

def capture_rule(ctx):
    R = 'R09.capture'
    ctx.rule(R, 'every exception of decoding a value turns its event into an '
             'error event that carries the exception', 3)
    f = ctx.need_func('hwp5.bintype', 'resolve_value_from_stream')
    users = [u for u in ctx.prog.functions if u.module.name.startswith('hwp5')
             and any(n.kind == 'call' and n.get('target') is f
                     for n in ctx.graphs[u].nodes)]
    ctx.check(bool(users), R, f.fullname, 'no value is decoded by it')
    for u in users:
        g = refine(ctx.graph(u, inline=lambda x, w: x.module is u.module and
                             x is not f))
        calls = [n for n in g.nodes if n.kind == 'call' and
                 n.get('target') is f]
        for n in calls:
            item = n.args[0]
            hs = [y for y, l in n.succ if l == 'exc']
            ok = any(catch_all(g.nodes[y]) for y in hs)
            ctx.check(ok, R, u.fullname + ' caught', 'a failing value is not '
                      'caught', ctx.where(n))
            for y in hs:
                h = g.nodes[y]
                if h.kind != 'handler':
                    continue
                # every way on hands on an error event with the exception
                good = set()
                for m in g.nodes:
                    if m.kind == 'yield' and m.value.op == 'tuple' and \
                            len(m.value.args) == 2 and \
                            is_error_class(m.value.args[0]) and \
                            m.value.args[1] is item:
                        good.add(m.id)
                seen = walk(g, [y], lambda c: None, stops=good)
                lost = [x for x in seen if g.nodes[x].kind in (
                    'exit-return', 'yield', 'loop') and x not in good]
                ctx.check(not lost, R, u.fullname + ' event', 'a failing '
                          'value goes on as something else than an error '
                          'event', ctx.where(h))
                exc = [m.id for m in g.nodes if m.kind == 'setitem' and
                       m.obj is item and cval(m.key) == 'exception' and
                       is_exc(m.value)]
                seen = walk(g, [y], lambda c: None, stops=set(exc))
                ctx.check(not (seen & good), R, u.fullname + ' cause',
                          'the error event does not carry the exception',
                          ctx.where(h))
            # the place is noted before the value is read
            offs = [m for m in g.nodes if m.kind == 'setitem' and
                    m.obj is item and cval(m.key) == 'bin_offset']
            dom = dominators(g)
            chain = set(dom_chain(dom[0], n.id))
            ctx.check(any(m.id in chain for m in offs), R,
                      u.fullname + ' offset', 'the offset of a value is not '
                      'noted before it is read', ctx.where(n))
            for m in offs:
                fn, a = fn_args(m.value)
                ctx.check(fn is not None and fn.op == 'attr' and
                          fn.args[1] == 'tell' and
                          fn.args[0] is n.args[1], R,
                          u.fullname + ' position', 'the offset is %s' %
                          short(m.value), ctx.where(m))


def is_exc(t):
    return t.op == 'exc' or any(a.op == 'exc' for a in alternatives(t))


# -- forwarding ---------------------------------------------------------------

def error_case(ev):
    """valuation: the event is an error event"""
    def val(c):
        if c.op == 'cmp':
            op, a, b = c.args
            if b is ev:
                a, b = b, a
            if a is ev:
                if op in ('is', '=='):
                    if is_error_class(b):
                        return True
                    if b.op == 'class' or is_none(b):
                        return False
                if op in ('is not', '!='):
                    if is_error_class(b):
                        return False
                    if b.op == 'class' or is_none(b):
                        return True
                if op in ('in', 'not in') and b.op in ('tuple', 'list',
                                                       'set'):
                    r = any(is_error_class(x) for x in b.args)
                    return r == (op == 'in')
        return None
    return val


def stages(ctx):
    """generators the resolved events pass through after the values are
    resolved"""
    f = ctx.need_func('hwp5.bintype', 'eval_typedef_events')
    g = ctx.graph(f, inline=lambda x, w: x.module is f.module and
                  not x.is_generator)
    out = []
    rv = T('sym', 'resolve_values')
    for n in g.nodes:
        if n.kind == 'mkgen' and any(
                s.op == 'res' and s.args[1] is rv
                for a in n.args for s in subterms(a)):
            out.append(n.target)
    return f, out


def event_items(g):
    """(next node, event, item) of the loops over (event, item) pairs"""
    for n in g.nodes:
        if n.kind != 'next' or n.iter is None:
            continue
        ev = it = None
        for m in g.nodes:
            for v in term_values(m):
                for t in subterms(v):
                    if t.op == 'item' and t.args[0].op == 'elem' and \
                            t.args[0].args[0] is n.iter:
                        if t.args[1] == 0:
                            ev = t
                        elif t.args[1] == 1:
                            it = t
        if ev is not None and it is not None:
            yield n, ev, it


def forward_rule(ctx):
    R = 'R09.forward'
    ctx.rule(R, 'every stage after value decoding hands error events on '
             'without looking at the missing value', 2)
    f, fs = stages(ctx)
    ctx.check(bool(fs), R, f.fullname, 'resolved values are not evaluated')
    for s in fs:
        g = refine(ctx.graph(s, inline=lambda x, w: x.module is s.module))
        es = [(n, ev, it) for n, ev, it in event_items(g)
              if n.iter is T('sym', s.params[0])]
        if not es:
            ctx.bad(R, s.fullname, 'does not go through the events')
        for n, ev, it in es:
            val = error_case(ev)
            start = [y for y, l in n.succ if l == 'T']
            heads = {m.id for m in g.nodes if m.kind == 'loop' and
                     m.iter is n.iter}
            pair = {m.id for m in g.nodes if m.kind == 'yield' and
                    forwards(m.value, ev, it)}
            seen = walk(g, start, val, stops=heads | pair)
            lost = [x for x in seen if x in heads or g.nodes[x].kind ==
                    'exit-return']
            ctx.check(not lost, R, s.fullname + ' lost', 'an error event can '
                      'get lost', ctx.where(n))
            looks = [x for x in seen if g.nodes[x].kind == 'getitem' and
                     g.nodes[x].obj is it and
                     cval(g.nodes[x].key) == 'value']
            ctx.check(not looks, R, s.fullname + ' value', 'the value of an '
                      'error event is looked at', ctx.where(
                          g.nodes[looks[0]]) if looks else None)


def forwards(v, ev, it):
    return v.op == 'tuple' and len(v.args) == 2 and v.args[0] is ev and \
        v.args[1] is it or v.op == 'elem' and ev.args[0] is v


# -- raising ------------------------------------------------------------------

FIELDS = ('cause', 'path', 'record', 'offset')


def errorraisers(ctx):
    """generators that test events for error events and raise"""
    out = []
    for f in ctx.prog.functions:
        if f.module.name not in ENGINE or not f.is_generator:
            continue
        g = ctx.graphs[f]
        if any(n.kind == 'raise' for n in g.nodes) and any(
                is_error_class(t) for n in g.nodes if n.kind == 'branch'
                for t in subterms(n.cond)):
            out.append(f)
    return out


def raise_rule(ctx):
    R = 'R09.raise'
    ctx.rule(R, 'every error event is raised as a parse error with cause, '
             'path, record and offset of the failing item', 8)
    fs = errorraisers(ctx)
    ctx.check(bool(fs), R, 'hwp5.binmodel', 'error events are not raised')
    for f in fs:
        g = refine(ctx.graph(f, inline=lambda x, w: x.module.name in (
            'hwp5.bintype', 'hwp5.binmodel', 'hwp5.dataio') and
            not x.is_generator and x.name != 'resolve_type_events'))
        es = list(event_items(g))
        for n, ev, it in es:
            val = error_case(ev)
            start = [y for y, l in n.succ if l == 'T']
            heads = {m.id for m in g.nodes if m.kind == 'loop' and
                     m.iter is n.iter}
            raises = {m.id for m in g.nodes if m.kind == 'raise'}
            seen = walk(g, start, val, stops=heads | raises)
            lost = [x for x in seen if x in heads or g.nodes[x].kind ==
                    'exit-return']
            ctx.check(not lost, R, f.fullname + ' raised', 'an error event '
                      'is not raised', ctx.where(n))
            for r in sorted(seen & raises):
                fields(ctx, R, f, g, g.nodes[r], it)


def attr_states(g, n, obj):
    """last value of every attribute of obj on the way to n (dominating
    assignments, latest first)"""
    idom = dominators(g)[0]
    out = {}
    for x in dom_chain(idom, n.id):
        m = g.nodes[x]
        if m.kind == 'setattr' and m.obj is obj and m.attr not in out:
            out[m.attr] = m.value
    return out


def fields(ctx, R, f, g, n, it):
    e = n.exc
    ok = e is not None and e.op == 'inst' and \
        e.args[0].name == 'ParseError'
    ctx.check(ok, R, f.fullname + ' type', 'an error event is raised as %s' %
              short(e), ctx.where(n))
    if not ok:
        return
    st = attr_states(g, n, e)
    what = f.fullname
    c = st.get('cause', NONE)
    ctx.check(lookup(c, 'exception') is it, R, what + ' cause', 'the cause '
              'is %s' % short(c), ctx.where(n))
    for name in ('path', 'record'):
        v = st.get(name, NONE)
        b = lookup(v, name)
        ctx.check(b is not None and b.op == 'sym', R, what + ' ' + name,
                  'the %s is %s' % (name, short(v)), ctx.where(n))
    o = st.get('offset', NONE)
    ok = any(lookup(x, 'bin_offset') is it for x in alternatives(o)) or \
        lookup(o, 'bin_offset') is it
    ctx.check(ok, R, what + ' offset', 'the offset is %s' % short(o),
              ctx.where(n))


# -- the pipeline -------------------------------------------------------------

def pipe_rule(ctx):
    R = 'R09.pipe'
    ctx.rule(R, 'the resolved events of every record go through the stage '
             'that raises, which also converts every other exception', 3)
    f = ctx.need_func('hwp5.binmodel', 'resolve_model_events')
    raisers = set(errorraisers(ctx))
    users = [u for u in ctx.prog.functions
             if any(n.kind == 'mkgen' and n.target is f
                    for n in ctx.graphs[u].nodes)]
    ctx.check(bool(users), R, f.fullname, 'no record is resolved by it')
    sinks = set()
    for u in users:
        g = ctx.graphs[u]
        for n in g.nodes:
            if n.kind != 'mkgen' or n.target is not f:
                continue
            t = n.result
            into = [m for m in g.nodes if m.kind in ('mkgen', 'call') and
                    m is not n and any(t is a for a in m.args)]
            ok = into and all(m.get('target') in raisers for m in into)
            ctx.check(bool(ok), R, u.fullname, 'the events of a record do '
                      'not go through the stage that raises', ctx.where(n))
            sinks |= {(m.target, list(m.args).index(t)) for m in into
                      if m.get('target') in raisers}
            for m in into:
                tgt = m.get('target')
                if tgt not in raisers:
                    continue
                # its events are really taken, and by nobody else
                direct = [x for x in g.nodes if x.kind == 'next' and
                          x.iter is t]
                ctx.check(not direct, R, u.fullname + ' bypass', 'events are '
                          'taken past the stage that raises', ctx.where(n))
                used = any(x.kind == 'next' and x.iter is m.result or
                           x.kind in ('setitem', 'return') and
                           m.result in set(subterms(x.value)) or
                           x.kind == 'call' and m.result in set(
                               s for a in x.args for s in subterms(a)) or
                           x.kind == 'yieldfrom'
                           for x in g.nodes) or any(
                    m.result in set(subterms(v)) for x in g.nodes
                    if x is not m for v in term_values(x))
                ctx.check(used, R, u.fullname + ' taken', 'the events are '
                          'not taken', ctx.where(m))
    for s, i in sinks:
        g = refine(ctx.graph(s, inline=lambda x, w: x.module.name in (
            'hwp5.binmodel', 'hwp5.dataio') and not x.is_generator))
        src = T('sym', s.params[i])
        for n in g.nodes:
            if n.kind != 'next' or n.iter is not src:
                continue
            hs = [g.nodes[y] for y, l in n.succ if l == 'exc']
            ctx.check(any(catch_all(h) for h in hs), R, s.fullname +
                      ' converts', 'an exception of a condition, a count or '
                      'a key is not turned into a parse error', ctx.where(n))
            for h in hs:
                if h.kind != 'handler':
                    continue
                rs = {m.id for m in g.nodes if m.kind == 'raise'}
                seen = walk(g, [h.id], lambda c: None, stops=rs)
                lost = [x for x in seen if g.nodes[x].kind in (
                    'exit-return', 'loop', 'yield')]
                ctx.check(not lost, R, s.fullname + ' swallows', 'a failure '
                          'is swallowed', ctx.where(h))
                for r in seen & rs:
                    e = g.nodes[r].exc
                    if is_exc(e):
                        ok = all(x == 'ParseError' for x in
                                 names_of_types(h.types)) and h.types
                        ctx.check(bool(ok), R, s.fullname + ' reraises',
                                  'a failure is raised as it is',
                                  ctx.where(h))
                        continue
                    ok = e.op == 'inst' and e.args[0].name == 'ParseError'
                    ctx.check(ok, R, s.fullname + ' converted',
                              'a failure is raised as %s' % short(e),
                              ctx.where(h))
                    if ok:
                        st = attr_states(g, g.nodes[r], e)
                        ctx.check(is_exc(st.get('cause', NONE)), R,
                                  s.fullname + ' conversion cause', 'the '
                                  'cause is %s' % short(
                                      st.get('cause', NONE)), ctx.where(h))
                        for name in ('path', 'record'):
                            v = st.get(name, NONE)
                            b = lookup(v, name)
                            ctx.check(b is not None and b.op == 'sym', R,
                                      s.fullname + ' conversion ' + name,
                                      'the %s is %s' % (name, short(v)),
                                      ctx.where(h))
                        o = st.get('offset', NONE)
                        ctx.check(o is not NONE, R, s.fullname +
                                  ' conversion offset', 'has no offset',
                                  ctx.where(h))
    # the stream contexts know their path
    for f in ctx.prog.functions:
        if f.module.name == 'hwp5.binmodel' and f.name in (
                'models', 'parse_model_events'):
            g = ctx.graphs[f]
            ok = any(cval(t) == 'path' for n in g.nodes
                     for v in [n.get('key')] + list(n.get('args') or ()) +
                     [x for v in term_values(n) for x in subterms(v)
                      if x.op == 'dict']
                     if isinstance(v, Term)
                     for t in ([v] if is_const(v) else
                               [k[0] for k in v.args
                                if isinstance(k, tuple) and len(k) == 2]
                               if v.op == 'dict' else []))
            ctx.check(ok, R, f.fullname + ' path', 'the context of the '
                      'records does not know the path of their stream')


# -- nothing is swallowed -----------------------------------------------------

def decoders(ctx):
    mods = lambda m: m.startswith('hwp5.binmodel') or m in (  # noqa
        'hwp5.dataio', 'hwp5.bintype')
    start = {ctx.need_func('hwp5.bintype', 'resolve_value_from_stream')}
    for f in ctx.prog.functions:
        if mods(f.module.name) and f.cls is not None and \
                f.name in ('read', 'decode'):
            start.add(f)
    start.add(ctx.need_func('hwp5.bintype', 'resolve_typedefs'))
    start.add(ctx.need_func('hwp5.binmodel', 'resolve_model_events'))
    out = set()
    st = list(start)
    while st:
        x = st.pop()
        if x in out or not mods(x.module.name) or x.name in (
                '__new__', 'attributes'):
            continue
        out.add(x)
        for n in ctx.graphs[x].nodes:
            t = n.get('target')
            if t is not None and hasattr(t, 'module'):
                st.append(t)
        for v in getattr(x, 'inner', {}).values():
            for b in v:
                if b.kind == 'func':
                    st.append(b.value)
    return out


def swallow_rule(ctx):
    R = 'R09.swallow'
    ctx.rule(R, 'no handler in the decoding functions completes normally', 10)
    ds = decoders(ctx)
    capture = {u for u in ds if any(
        n.kind == 'call' and n.get('target') is not None and
        n.target.name == 'resolve_value_from_stream'
        for n in ctx.graphs[u].nodes)}
    for f in sorted(ds, key=lambda x: x.fullname):
        g = ctx.graphs[f]
        hs = [n for n in g.nodes if n.kind == 'handler']
        bad = None
        if f not in capture:
            for h in hs:
                if end_of_table(h):
                    continue
                seen = walk(g, [h.id], lambda c: None)
                if any(g.nodes[x].kind in ('exit-return', 'yield')
                       for x in seen):
                    bad = h
        ctx.check(bad is None, R, f.fullname, 'a failure (%s) is swallowed' %
                  (', '.join(names_of_types(bad.types)) if bad else ''),
                  ctx.where(bad) if bad else None)


def streams_of(ctx, ds):
    """terms standing for the record's stream in each decoding function"""
    out = {f: set() for f in ds}
    for f in ds:
        ps = [p for p in f.params if p not in ('cls', 'self')]
        if f.name == 'read' and f.cls is not None and ps:
            out[f].add(T('sym', ps[0]))
        if f.name == 'resolve_value_from_stream' and len(ps) > 1:
            out[f].add(T('sym', ps[1]))
        out[f].add(T('sub', T('sym', 'context'), const('stream')))
    work = list(ds)
    while work:
        f = work.pop()
        for n in ctx.graphs[f].nodes:
            t = n.get('target')
            if n.kind != 'call' or t not in out:
                continue
            ps = list(t.params)
            if ps and ps[0] in ('self', 'cls'):
                ps = ps[1:]
            for p, a in zip(ps, n.args):
                if a in out[f] and T('sym', p) not in out[t]:
                    out[t].add(T('sym', p))
                    work.append(t)
    return out


def complete_rule(ctx):
    R = 'R09.complete'
    ctx.rule(R, 'a read of a given size is delivered only where its length '
             'was compared with what was asked for', 1)
    ds = decoders(ctx)
    streams = streams_of(ctx, ds)
    for f in sorted(ds, key=lambda x: x.fullname):
        g = None
        for n0 in ctx.graphs[f].nodes:
            if n0.kind != 'call' or n0.fn.op != 'attr' or \
                    n0.fn.args[1] not in ('read', 'read1') or \
                    n0.fn.args[0] not in streams[f] or not n0.args or \
                    n0.args[0] is NONE or cval(n0.args[0]) == -1:
                continue
            if g is None:
                g = refine(ctx.graphs[f])
                dom = dominators(g)
            for n in g.nodes:
                if n.get('orig') is not n0 or n.get('result') is None:
                    continue
                bad = None
                for x in walk(g, [y for y, l in n.succ if l == 'next'],
                              lambda c: None):
                    r = g.nodes[x]
                    if r.kind not in ('exit-return', 'yield') or \
                            n.result not in set(
                                y for v in term_values(r)
                                for y in subterms(v)):
                        continue
                    facts = [(c, p) for c, p, b in facts_at(g, r.id, dom)]
                    if not any(measured(c, n) for c, p in
                               norm_facts(facts)):
                        bad = r
                ctx.check(bad is None, R, '%s: %s' % (f.fullname,
                                                      short(n.result)),
                          'what is left of the record is delivered although '
                          'less was read than asked for', ctx.where(n))


def measured(c, n):
    """c compares the length of what n read with what was asked for"""
    outer, st = set(), [c]
    while st:
        t = st.pop()
        if t in outer or not isinstance(t, Term):
            continue
        outer.add(t)
        if t is not n.result:
            st.extend(x for x in t.args if isinstance(x, Term))
            st.extend(y for x in t.args if isinstance(x, tuple) for y in x)
    return n.result in outer and any('len' in short(x) for x in outer) and \
        any(a in outer for a in n.args)


def end_of_table(h):
    return bool(h.types) and all(x in ('StopIteration',)
                                 for x in names_of_types(h.types))


# -- the report itself --------------------------------------------------------

def report_rule(ctx):
    R = 'R09.report'
    ctx.rule(R, 'reporting a parse error does not fail on fields that are '
             'not set', 3)
    c = ctx.need_class('hwp5.dataio', 'ParseError')
    m = ctx.prog.method(c, 'print_to_logger')
    if m is None:
        ctx.bad(R, c.fullname, 'cannot be reported')
        return
    init = ctx.prog.method(c, '__init__')
    me = T('inst', c, 'self')
    optional = set()
    if init is not None:
        for n in ctx.graphs[init].nodes:
            if n.kind == 'setattr' and is_none(n.value):
                optional.add(n.attr)
    for k, bs in c.members.items():
        if k in ('treegroup',):
            optional.add(k)
    g = refine(ctx.graph(m, inline=lambda f, w: f.cls is c))
    dom = dominators(g)
    for n in g.nodes:
        uses = []
        if n.kind == 'getitem':
            uses.append(n.obj)
        if n.kind in ('loop', 'next') and n.iter is not None:
            uses += [x for x in subterms(n.iter) if x.op == 'attr' and
                     n.iter is x or x.op == 'attr' and n.iter.op in (
                         'gencall', 'pure', 'res')]
        if n.kind == 'call' and n.args and is_const(n.args[0]) and \
                isinstance(cval(n.args[0]), str):
            import re
            specs = re.findall(r'%[-#0-9.]*([a-zA-Z%])', cval(n.args[0]))
            for sp, a in zip([s for s in specs if s != '%'], n.args[1:]):
                if sp not in 'srax' or sp in 'x':
                    uses.append(a)
        for u in uses:
            if u.op != 'attr' or u.args[0] is not me or \
                    u.args[1] not in optional:
                continue
            facts = norm_facts(facts_at(g, n.id, dom))
            ok = any(c2 is u and p for c2, p in facts) or any(
                c2.op == 'cmp' and p and c2.args[0] in ('is not', '!=') and
                c2.args[1] is u and is_none(c2.args[2])
                for c2, p in facts)
            ctx.check(ok, R, '%s %s' % (m.fullname, u.args[1]), 'is used '
                      'while it may be missing', ctx.where(n))


witnesses = [
    ('narrow', 'hwp5/bintype.py', 'except Exception as e:\n'
     "                    item['exception']",
     'except (Eof, struct.error) as e:\n'
     "                    item['exception']"),
    ('flags', 'hwp5/bintype.py',
     "if 'flags_type' in item and ev is not ERROREVENT:",
     "if 'flags_type' in item:"),
    ('event', 'hwp5/bintype.py', '                    ev = ERROREVENT\n', ''),
    ('skip', 'hwp5/binmodel/__init__.py', 'if ev is ERROREVENT:',
     "if ev is ERROREVENT and item['type'] is not BinData:"),
    ('nocause', 'hwp5/binmodel/__init__.py', '    pe.cause = cause\n', ''),
    ('nopath', 'hwp5/binmodel/__init__.py', "pe.path = context.get('path')",
     "pe.path = context.get('treegroup')"),
    ('bypass', 'hwp5/binmodel/__init__.py',
     'for x in raise_on_errorevent(context, events):',
     'for x in events:'),
    ('short string', 'hwp5/dataio.py',
     'data = readn(f, 2 * size)', 'data = f.read(2 * size)'),
    ('short read helper', 'hwp5/dataio.py', [('''class BSTR(''', '''def read_chars(f, n):
    data = f.read(n + n)
    if not data:
        raise Eof(f.tell())
    return data


class BSTR('''), ('data = readn(f, 2 * size)', 'data = read_chars(f, size)')]),
    ('swallow', 'hwp5/dataio.py', """    def read(cls, f, context=None):
        size = UINT16.read(f, None)
""", """    def read(cls, f, context=None):
        try:
            size = UINT16.read(f, None)
        except Eof:
            return ''
"""),
    ('swallow2', 'hwp5/bintype.py', "    elif item_type is BSTR:\n"
     "        return BSTR.read(stream)",
     "    elif item_type is BSTR:\n        try:\n"
     "            return BSTR.read(stream)\n"
     "        except UnicodeDecodeError:\n            return ''"),
    ('offset', 'hwp5/dataio.py', 'if e.offset is not None:\n', 'if True:\n'),
    ('escape', 'hwp5/binmodel/__init__.py', """    except Exception as e:
        # a condition""", """    except LookupError as e:
        # a condition"""),
]
benign = [
    ('own length test', 'hwp5/dataio.py', '''        data = readn(f, 2 * size)
''', '''        nbytes = 2 * size
        data = f.read(nbytes)
        if len(data) != nbytes:
            raise OutOfData(f.tell())
'''),
    ('read helper', 'hwp5/dataio.py', [('''class BSTR(''', '''def read_chars(f, n):
    return readn(f, n * 2)


class BSTR('''), ('data = readn(f, 2 * size)', 'data = read_chars(f, size)')]),
    ('else', 'hwp5/bintype.py', """                try:
                    item['value'] = resolve_value_from_stream(item, stream)
                except Exception as e:
                    item['exception'] = e
                    ev = ERROREVENT
            yield ev, item
""", """                try:
                    value = resolve_value_from_stream(item, stream)
                except Exception as exc:
                    item['exception'] = exc
                    yield ERROREVENT, item
                    continue
                else:
                    item['value'] = value
            yield ev, item
"""),
    ('inline', 'hwp5/binmodel/__init__.py', """                e = item['exception']
                raise make_parse_error(context, msg, e, offset, binevents)
""", """                error = ParseError(msg)
                error.cause = item['exception']
                error.path = context.get('path')
                error.treegroup = context.get('treegroup')
                error.record = context.get('record')
                error.offset = offset
                error.binevents = binevents
                raise error
"""),
    ('early', 'hwp5/bintype.py', """        if 'flags_type' in item and ev is not ERROREVENT:
            flags_type""", """        if ev is ERROREVENT:
            yield ev, item
            continue
        if 'flags_type' in item:
            flags_type"""),
]
