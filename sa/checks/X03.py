# -*- coding: utf-8 -*-
"""X03 tree transformations lose no document content."""
from ..terms import T, Term, is_const, cval, subterms
from ..cases import feasible as possible
from ..flow import dominators, facts_at
from ..iters import (natural, settle, iterations, next_value, deep, feasible,
                     nodes_on)
from ..events import (START, END, OTHER, Words, Transform, Unknown,
                      input_loops, sequences, flat_words, base, class_of)
from ..affine import linear
from ._util import short, fn_args, ret_values
from .X02 import Analysis, MODULES, truth, flags_of

TECHNIQUE = ('value-flow analysis of the transformations of event streams: '
             'on every path taken for a class of models the input event has '
             'to flow into the output, into a structure that is handed out '
             'later, or into the stream of another generator; slices of '
             'chunks are matched as linear terms so that the parts handed '
             'out and kept tile the whole')
LEVEL_NOTE = ('Conditions other than the kind and class of an event and its '
              'attributes are followed as free branches; the contents of '
              'the events (attributes) are followed only where they are '
              'rebuilt or split.')
EXPLANATION = '''Every transformation is turned into rows (class of the model,
start or end, path). A start event whose item reaches neither the output nor a
store is a lost event, one that reaches the output twice is a duplicated one;
what is stored has to be read back, in the order in which it was stored, where
the element that it belongs to ends. Loops that split a chunk or a string are
solved symbolically for one iteration: what is handed out followed by what is
kept must be the whole.'''

XM = 'hwp5.xmlmodel'
# other transformations leave out what a version of the format lacks
KEEP = ('hwp5.xmlmodel', 'hwp5.treeop', 'hwp5.xmlformat')


def run(ctx):
    ctx.rule('X03.kept', 'every event taken is forwarded or kept', 4)
    ctx.rule('X03.once', 'no event is handed out twice', 3)
    ctx.rule('X03.stored', 'what is kept is handed out later', 1)
    ctx.rule('X03.split', 'parts of split contents make up the whole', 1)
    ctx.rule('X03.text', 'parts of texts keep the attributes of texts', 0)
    ctx.rule('X03.streams', 'streams that are made are passed on', 2)
    ctx.rule('X03.written', 'every part of an element is written', 4)
    written(ctx)
    A = Analysis(ctx)
    for f in A.gens:
        if input_loops(ctx.graphs[f]):
            A.helpers |= A.takes_events(f)
    for f in A.gens:
        if f in A.helpers or not input_loops(ctx.graphs[f]) or \
                f.module.name not in KEEP:
            continue
        h = A.takes_events(f)
        for args in A.variants(f):
            try:
                g = A.build(f, h, args)
            except Exception:
                continue
            for lp, evs in input_loops(g)[:1]:
                transform(ctx, A, f, g, lp, evs)
    trees(ctx, A)
    splits(ctx)
    text(ctx, A)
    streams(ctx, A)


# events ---------------------------------------------------------------------
def words_of(w):
    """all tokens, those inside of loops too"""
    inner, flat = flat_words(w)
    out = list(flat)
    for x in inner:
        out += words_of(x)
    return out


def carries(tok, what):
    for x in tok[1:]:
        if isinstance(x, Term) and (x in what or
                                    any(s in what for s in subterms(x))):
            return True
        if isinstance(x, tuple) and x and x[0] == 'kept':
            return True
    return False


def excused(t, r):
    """events that the format says have no content of their own: the
    control characters that stand for something else"""
    for k, v in r.attrs:
        if v and ("'FIELD_END'" in k or 'EXTENDED' in k):
            return True
    for c, p in r.seq.conds:
        s = str(c)
        if t.attrs in set(subterms(c)) and ("'FIELD_END'" in s or
                                            'EXTENDED' in s):
            return True
    return False


def transform(ctx, A, f, g, lp, evs):
    t = Transform(ctx, g, lp, evs, f)
    rows, unk = t.rows(A.balanced)
    where = ctx.where(lp)
    said = set()

    def report(rule, key, msg):
        if (rule, key) not in said:
            said.add((rule, key))
            ctx.bad(rule, '%s: %s' % (f.name, key), '%s: %s' % (f.name, msg),
                    where)
    context = T('item', t.item, 2)
    what = {t.item, t.attrs, context, t.E}
    outside = {T('item', t.item, 0)}
    del outside
    n = 0
    for r in rows:
        if r.kind != START:
            continue
        if impossible(r):
            continue
        n += 1
        ws = words_of(r.w)
        subs = [u[1] for u in ws if u[0] == 'sub']
        name = r.cls if isinstance(r.cls, str) else r.cls.name
        if subs:
            for s in subs:
                use = [u for u in ws if u[0] != 'sub' and carries(u, {s})]
                parts = set()
                for u in use:
                    for x in u[1:]:
                        if isinstance(x, Term):
                            parts |= used_parts(x, s)
                if not use or not ('all' in parts or
                                   {0, 1} <= parts):
                    report('X03.kept', name, 'the subtree of a %s is taken '
                           'from the input but %s' % (name, 'not handed on'
                           if not use else 'only a part of it is handed on'))
            continue
        use = [u for u in ws if u[0] in ('S', 'G', 'N', 'store', 'S*',
                                         'kept') and carries(u, what)]
        if not use and not (excused(t, r) and any(
                u[0] in ('G', 'take') for u in ws) or
                excused(t, r) and fieldend(rows, r)) and \
                not pushed_and_read(ctx, t, g, r, rows, what):
            report('X03.kept', name, 'the %s is neither handed out nor kept'
                   % r.label(g))
        # the same item twice
        ss = [u for u in r.w if u[0] == 'S' and u[1] is t.item]
        gs = [u for u in r.w if u[0] == 'G' and carries(u, what)]
        if len(ss) > 1 or len({id(u[1]) for u in gs}) < len(gs) or \
                len(ss) + len([u for u in gs if wholly(u[1], t)]) > 1:
            report('X03.once', name, 'the %s is handed out more than once'
                   % r.label(g))
        elif ss or gs:
            ctx.ok('X03.once', '%s: %s' % (f.name, r.label(g)))
    if n:
        ctx.ok('X03.kept', '%s: %d paths of start events, %d undecided'
               % (f.fullname, n, unk))
    stored(ctx, A, f, g, t, rows, report)
    buffered(ctx, A, f, g, t, rows, report)


def wholly(x, t):
    """a stream made from the whole item"""
    return any(s is t.item for s in subterms(x))


def impossible(r):
    """contradicting conditions"""
    d = {}
    for c, p in r.seq.conds:
        while c.op == 'not':
            c, p = c.args[0], not p
        if d.setdefault(c, p) != p:
            return True
    return False


def used_parts(x, s):
    """indices of the parts of s that are used in x"""
    out = set()
    if x is s:
        return {'all'}
    if x.op in ('item', 'sub') and x.args[0] is s:
        k = x.args[1]
        if isinstance(k, Term):
            k = cval(k) if is_const(k) else None
        return {k if k is not None else 'all'}
    for a in x.args:
        if isinstance(a, Term):
            out |= used_parts(a, s)
        elif isinstance(a, (tuple, list)):
            for b in a:
                if isinstance(b, Term):
                    out |= used_parts(b, s)
                elif isinstance(b, (tuple, list)):
                    for c in b:
                        if isinstance(c, Term):
                            out |= used_parts(c, s)
    return out


def fieldend(rows, r):
    """the end event of the same class hands out something"""
    return any(q.kind == END and q.cls is r.cls and q.attrs == r.attrs and
               words_of(q.w) for q in rows)


def pushed_and_read(ctx, t, g, r, rows, what):
    """pushed to a stack from which it is handed out later"""
    ps = [u for u in words_of(r.w) if u[0] == 'push' and carries(u, what)]
    for u in ps:
        for q in rows:
            for v in words_of(q.w):
                if v[0] == 'pop' and base(v[1]) == base(u[1]) and any(
                        w[0] in ('S', 'G', 'N') and carries(w, {v[2]})
                        for w in words_of(q.w)):
                    return True
                if v[0] in ('S*', 'G') and base(v[1]) == base(u[1]):
                    return True
    return False


def gets_on(g, seq, W=None):
    """(key term, result) of what is read from a container on a path"""
    out = []
    ids = []
    for x, l, y in seq.edges:
        ids.append(x)
        if l == 'LOOP':
            ids += sorted(natural(g, x))
    for i in ids:
        n = g.nodes[i]
        if n.kind == 'call' and n.get('fn') is not None and \
                n.fn.op == 'attr' and n.fn.args[1] in ('get', 'pop',
                                                       'setdefault') and \
                n.args:
            out.append((n.args[0], n.get('result')))
        elif n.kind == 'getitem':
            out.append((n.key, T('sub', n.obj, n.key)))
        elif n.kind == 'loop' and n.get('iter') is not None:
            for s in subterms(n.iter):
                if s.op == 'sub' and isinstance(s.args[1], Term):
                    out.append((s.args[1], s))
    return out


def stored(ctx, A, f, g, t, rows, report):
    """parts kept in the record of the enclosing element"""
    keep = {}
    for r in rows:
        if r.kind != START:
            continue
        for u in words_of(r.w):
            if u[0] == 'store' and u[1].op == 'sub':
                key = None
                for x, l, y in r.seq.edges:
                    m = g.nodes[x]
                    if m.kind == 'setitem' and m.obj is u[1]:
                        key = m.key
                if key is t.model and not isinstance(r.cls, str):
                    key = T('class', r.cls)
                if key is not None:
                    keep.setdefault(('store', key), (r, u, base(
                        u[1].args[0])))
            if u[0] == 'push':
                k = member_key(u[1])
                if k is not None:
                    keep.setdefault(('queue', k[1]), (r, u, base(k[0])))
    if not keep:
        return
    # where the record is given up
    ends = [q for q in rows if q.kind == END and any(
        u[0] == 'pop' for u in q.w)]
    for (how, key), (r, u, b) in keep.items():
        qs = [q for q in ends if any(
            v[0] == 'pop' and base(v[1]) == b for v in q.w)]
        if not qs:
            continue
        name = short(key, 40)
        used = 0
        for q in qs:
            got = [res for k, res in gets_on(g, q.seq) if k is key]
            toks = words_of(q.w)
            for res in got:
                if any(v[0] in ('S', 'G', 'N') and carries(v, {res})
                       for v in toks):
                    used += 1
                    break
        if not used and how == 'store':
            report('X03.stored', name, '%s is kept but not handed out at '
                   'the end of the element that it belongs to' % name)
        elif how == 'queue' and used < len([q for q in qs]):
            report('X03.stored', name, 'what is left in the queue of %s is '
                   'dropped at the end of the element' % name)
        else:
            ctx.ok('X03.stored', '%s: %s' % (f.name, name))
        if how == 'queue':
            order(ctx, f, g, t, rows, key, report)
            left(ctx, g, rows, key, report)
        else:
            overwritten(rows, r, u, key, name, report)


def left(ctx, g, rows, key, report):
    """what is handed out of a queue before the end of the element does
    not stay in the queue"""
    for r in rows:
        if r.kind == END and any(u[0] == 'pop' for u in r.w):
            continue
        got = []
        for u in words_of(r.w):
            if u[0] not in ('S', 'G', 'N'):
                continue
            for x in u[1:]:
                for s in subterms(x) if isinstance(x, Term) else ():
                    k = s.op == 'sub' and is_const(s.args[1]) and \
                        member_key(s.args[0])
                    if k and k[1] is key and isinstance(
                            cval(s.args[1]), int):
                        got.append(s.args[0])
        if not got:
            continue
        if any(u[0] in ('take', 'pop', 'store') for u in words_of(r.w)):
            continue
        if any(touched(g.nodes[x], got, key) for x, l, y in r.seq.edges):
            continue
        report('X03.once', 'queue', 'what is handed out of the queue of %s '
               'stays in it' % short(key, 40))


def touched(n, qs, key):
    """a statement that may take something out of a queue"""
    if n.kind in ('delitem', 'setitem', 'setattr', 'delete', 'del'):
        return True
    if n.kind == 'call' and n.get('fn') is not None:
        if n.fn.op == 'attr' and n.fn.args[0] in qs and \
                n.fn.args[1] not in ('__getitem__', '__len__', 'index',
                                     'append', 'count'):
            return True
        return any(a in qs for a in n.args or ())
    return False


def overwritten(rows, r, u, key, name, report):
    """a member that is read as a queue is not replaced"""
    takes = [v for q in rows for v in words_of(q.w)
             if v[0] in ('take', 'pop') and member_key(v[1]) is not None and
             member_key(v[1])[1] is key]
    if not takes:
        return
    if any(s is key for c, p in r.seq.conds for s in subterms(c)):
        return
    for x in u[2:]:
        for s in subterms(x) if isinstance(x, Term) else ():
            if member_key(s) is not None and member_key(s)[1] is key:
                return
    report('X03.stored', name, '%s replaces what was kept before in the '
           'queue' % name)


def member_key(s):
    """(container, key) of x[-1].setdefault(key, []) and the like"""
    if s.op == 'res':
        fn, a = s.args[1], s.args[2] if len(s.args) > 2 else ()
        if isinstance(fn, Term) and fn.op == 'attr' and \
                fn.args[1] in ('setdefault', 'get') and a:
            c = fn.args[0]
            if c.op == 'sub':
                return c.args[0], a[0]
    if s.op == 'sub' and isinstance(s.args[1], Term) and \
            s.args[0].op == 'sub' and s.args[1].op == 'class':
        return s.args[0].args[0], s.args[1]
    return None


def order(ctx, f, g, t, rows, key, report):
    """a queue is read at the end opposite to where it is written"""
    for r in rows:
        for u in words_of(r.w):
            if u[0] not in ('take', 'pop'):
                continue
            k = member_key(u[1])
            if k is None or k[1] is not key:
                continue
            front = u[0] == 'take'
            if front:
                for x, l, y in r.seq.edges:
                    m = g.nodes[x]
                    if m.kind == 'call' and m.get('result') is u[2] and \
                            m.args and is_const(m.args[0]) and \
                            cval(m.args[0]) != 0:
                        front = False
            if not front:
                report('X03.stored', 'order', 'the queue of %s is not read '
                       'in the order in which it was written'
                       % short(key, 40))


def buffered(ctx, A, f, g, t, rows, report):
    """events put off until something has been seen"""
    bufs = {}
    for r in rows:
        for u in r.w:
            if len(u) > 2 and isinstance(u[2], tuple) and u[2] and \
                    u[2][0] == 'kept':
                bufs.setdefault(base(u[2][1]), []).append(r)
    W = Words(g, None, lambda c: None)
    lp = t.lp
    stops = {n.id for n in g.nodes if n.kind == 'exit-return'}
    end = [y for n in g.nodes if n.kind == 'next' and n.loop == lp.id
           for y, l in n.succ if l == 'F']
    for b, rs in bufs.items():
        flags = None
        for r in rs:
            s = set()
            for c, p in r.seq.conds:
                for lv in flags_of(t):
                    v = truth(c, p, lv)
                    if v is not None:
                        s.add((lv, v))
            flags = s if flags is None else flags & s
        # rows that hand the events out
        out = [r for r in rows if handed(r.w, b)]
        for r in out:
            if handed(r.w, b) > 1:
                report('X03.once', 'buffer', 'the events put off are handed '
                       'out twice')
        for r in rows:
            # the state in which events are put off is left
            if r in out or r in rs:
                continue
            fl = t.flags(r)
            for lv, v in flags or ():
                was = any(truth(c, p, lv) == v for c, p in r.seq.conds)
                now = fl.get(lv)
                if was and (now == 1 and v is False or
                            now == -1 and v is True):
                    report('X03.stored', 'buffer', 'the events put off are '
                           'dropped at the %s' % r.label(g))
        for e in end:
            for s in ([None] if e in stops else
                      sequences(g, e, stops, lambda c: None) or ()):
                try:
                    w = W.tokens(s) if s is not None else []
                except Unknown:
                    continue
                conds = s.conds if s is not None else ()
                off = on = False
                for lv, v in flags or ():
                    for c, p in conds:
                        x = truth(c, p, lv)
                        if x is not None:
                            on |= x == v
                            off |= x != v
                n = handed(w, b)
                if not n and not off:
                    report('X03.stored', 'buffer', 'the events put off are '
                           'dropped at the end of the input')
                elif n and off and out:
                    report('X03.once', 'buffer', 'the events put off are '
                           'handed out again at the end of the input')
        ctx.ok('X03.stored', '%s: events put off' % f.name)


def handed(w, b):
    n = 0
    for u in w:
        if u[0] in ('G', 'S*') and isinstance(u[1], Term):
            if base(u[1]) == b:
                n += 1
            else:
                fn, a = fn_args(u[1])
                if any(isinstance(x, Term) and base(x) == b
                       for x in a or ()):
                    n += 1
        elif u[0] == 'loop':
            n += any(handed(list(x), b) for x in u[2])
    return n


# writing ---------------------------------------------------------------------

def written(ctx):
    """loops over the parts of an element use each of them, and texts are
    left out only when they are empty"""
    R = 'X03.written'
    for f, g in ctx.graphs.items():
        if f.module.name != 'hwp5.xmlformat':
            continue
        dom = dominators(g)
        for n in g.nodes:
            if n.kind == 'next':
                each(ctx, R, f, g, n)
            if n.kind == 'yield' and isinstance(n.get('value'), Term):
                nonempty(ctx, R, f, g, n, dom)


def each(ctx, R, f, g, n):
    it = g.nodes[n.loop].get('iter')
    if it is None:
        return
    inside = natural(g, n.loop)
    uses = set()
    elems = {s for i in inside for t in terms_of(g.nodes[i])
             for s in subterms(t) if s.op == 'elem' and s.args[0] is it}
    for i in inside - {n.loop}:
        m = g.nodes[i]
        ts = []
        if m.kind == 'yield':
            ts = [m.get('value')]
        elif m.kind == 'loop':
            ts = [m.get('iter')]
        elif m.kind == 'setitem':
            ts = [m.get('value'), m.get('key')]
        elif m.kind == 'call':
            ts = list(m.args or ())
            if m.fn is not None and m.fn.op == 'ext':
                ts = []
            if m.fn is not None and m.fn.op == 'attr' and \
                    m.fn.args[1] not in ('append', 'add', 'extend',
                                         'update', 'setdefault', 'write'):
                ts = []
        if any(isinstance(t, Term) and set(subterms(t)) & elems
               for t in ts):
            uses.add(i)
    if not uses or not any(g.nodes[i].kind in ('yield', 'setitem', 'call')
                           for i in uses):
        return
    what = it
    while what.op == 'sub' and what.args[1].op == 'slice':
        lo, hi = what.args[1].args[:2]
        if not (is_none(lo) or is_const(lo) and cval(lo) == 0) or \
                not is_none(hi):
            ctx.bad(R, '%s: %s' % (f.name, short(it, 40)), '%s: only a part '
                    'of %s is written' % (f.name, short(what.args[0], 60)),
                    ctx.where(n))
        what = what.args[0]
    fn, a = fn_args(it)
    if fn is not None and fn.op == 'ext' and fn.args[0] in (
            'itertools.islice', 'builtins.filter', 'itertools.takewhile',
            'itertools.dropwhile'):
        ctx.bad(R, '%s: %s' % (f.name, short(it, 40)), '%s: only a part of '
                'what there is is written' % f.name, ctx.where(n))
    # told apart by kind: events of a stream
    for i in inside:
        c = g.nodes[i].get('cond') if g.nodes[i].kind == 'branch' else None
        for s in subterms(c) if isinstance(c, Term) else ():
            if s.op == 'cmp' and s.args[0] in ('is', '==') and any(
                    x.op == 'item' and x.args[0] in elems and
                    x.args[1] == 0 for x in s.args[1:]
                    if isinstance(x, Term)):
                return
    start = [y for y, l in n.succ if l == 'T']
    missed = possible(g, start, {n.id}, uses)
    ctx.check(not missed, R, '%s: %s' % (f.name, short(it, 40)), '%s: a part '
              'of %s is left out' % (f.name, short(it, 60)), ctx.where(n))


def nonempty(ctx, R, f, g, n, dom):
    v = n.value
    txt = None
    if v.op == 'tuple' and len(v.args) == 2 and v.args[0].op == 'class' and \
            v.args[0].args[0].name == 'Text':
        txt = v.args[1]
    facts = facts_at(g, n.id, dom)
    if txt is None:
        for c, p, b in facts:
            if p and c.op == 'cmp' and c.args[0] in ('is', '==') and any(
                    isinstance(x, Term) and x.op == 'class' and
                    x.args[0].name == 'Text' for x in c.args[1:]):
                for x in c.args[1:]:
                    if x.op == 'item' and x.args[1] == 0:
                        txt = T('item', x.args[0], 1)
    if txt is None or is_const(txt):
        return
    odd = None
    for c, p, b in facts:
        if txt not in set(subterms(c)) or plain(c, txt):
            continue
        # decided by the rest of what is known
        odd = c
    ctx.check(odd is None, R, '%s: text' % f.name, '%s: a text is written '
              'only if %s' % (f.name, short(odd, 60) if odd is not None
                              else ''), ctx.where(n))


def plain(c, txt):
    """a test for an empty text"""
    while c.op == 'not':
        c = c.args[0]
    if c is txt:
        return True
    if c.op in ('and', 'or'):
        return all(plain(x, txt) or txt not in set(subterms(x))
                   for x in c.args)
    fn, a = fn_args(c)
    if fn is not None and fn.op == 'ext':
        return fn.args[0] in ('builtins.len', 'builtins.bool',
                              'builtins.isinstance')
    if c.op == 'cmp':
        for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
            fn, a = fn_args(x)
            if is_const(y) and (x is txt or fn is not None and
                                fn is T('ext', 'builtins.len')):
                return not cval(y) or cval(y) == 1
    return False


# trees -----------------------------------------------------------------------
def trees(ctx, A):
    """streams into trees and back"""
    for f, g in ctx.graphs.items():
        if f.module.name != 'hwp5.treeop':
            continue
        for n in list(g.nodes):
            if n.kind != 'loop' or n.get('iter') is None:
                continue
            nx = [m for m in g.nodes if m.kind == 'next' and m.loop == n.id]
            if not nx:
                continue
            E = T('elem', n.iter, nx[0].id)
            its, outs = paths_of(g, n.id)
            if f.is_generator:
                leveled(ctx, f, g, n, E, its)
            else:
                collected(ctx, f, g, n, E, its, outs)


def leveled(ctx, f, g, n, E, its):
    """a start event (or an item with its ancestors) for every element"""
    if n.iter.op != 'sym':
        return
    item = T('item', E, 1)
    counts = set()
    for p in its:
        k = 0
        for m in nodes_on(g, p):
            if m.kind == 'yield' and m.get('value') is not None and \
                    m.value.op == 'tuple' and m.value.args[-1] is item:
                k += 1
        st = [c for c, pol in conds_on(g, p) if T('item', E, 0) in set(
            subterms(c)) and any(class_of(x) for x in subterms(c))]
        if not st:
            counts.add(k)
    if not any(counts):
        return
    if counts - {1}:
        ctx.bad('X03.kept', '%s: items' % f.name, '%s: items are %s' % (
            f.name, 'left out' if 0 in counts else 'repeated'),
            ctx.where(n))
    else:
        ctx.ok('X03.kept', '%s: every item' % f.fullname)


def collected(ctx, f, g, n, E, its, outs):
    """subtrees of children are collected in the result"""
    kids = []
    for p in its + outs:
        k = [m for m in nodes_on(g, p) if m.kind == 'call' and
             m.get('target') is f]
        if k:
            kids.append((p, k))
    if not kids:
        return
    rets = [strip(x) for _, v in ret_values(g) for x in
            (v.args if v.op == 'tuple' else (v,)) if isinstance(x, Term)]
    for p, k in kids:
        for m in k:
            r = m.get('result')
            ok = False
            for q in nodes_on(g, p):
                if q.kind == 'call' and q.get('fn') is not None and \
                        q.fn.op == 'attr' and q.fn.args[1] == 'append' and \
                        q.args and r in set(subterms(q.args[0])):
                    ok = True
                if q.kind == 'call' and q.get('fn') is not None and \
                        q.fn.op == 'attr' and q.fn.args[1] in (
                            'insert', 'appendleft'):
                    ctx.bad('X03.kept', '%s: order' % f.name, '%s: children '
                            'are not kept in their order' % f.name,
                            ctx.where(q))
                    ok = True
            if not ok and p in its:
                ctx.bad('X03.kept', '%s: children' % f.name, '%s: the '
                        'subtree of a child is not kept' % f.name,
                        ctx.where(m))
            elif ok:
                ctx.ok('X03.kept', '%s: children' % f.fullname)
    item = T('item', E, 1)
    lists = [r for r in rets if r.op == 'list' or r.op == 'loopvar']
    if not any(r is item for r in rets) or not lists:
        if rets and all(r.op in ('const', 'item', 'list', 'elem')
                        for r in rets):
            ctx.bad('X03.kept', '%s: root' % f.name, '%s: the item or its '
                    'children are not returned' % f.name, ctx.where(n))


# splitting ------------------------------------------------------------------
def splits(ctx):
    for f, g in ctx.graphs.items():
        if f.module.name not in MODULES + ('hwp5.charsets',):
            continue
        for n in list(g.nodes):
            if n.kind != 'loop':
                continue
            strings(ctx, f, g, n)
            stepped(ctx, f, g, n)
            if f.module.name == XM and f.is_generator:
                ranged(ctx, f, g, n)
                tiled(ctx, f, g, n)
                grouped(ctx, f, g, n)


def slice_of(t):
    """(whole, low, high) of a slice without step"""
    if t.op == 'sub' and isinstance(t.args[1], Term) and \
            t.args[1].op == 'slice':
        lo, hi, st = t.args[1].args
        if is_none(st):
            return t.args[0], lo, hi
    return None


def is_none(t):
    return t is None or is_const(t) and t.args[0] is None


def same(a, b):
    if a is b:
        return True
    x, y = linear(a), linear(b)
    return x is not None and y is not None and x == y


def paths_of(g, h):
    try:
        its, outs = iterations(g, h)
    except Exception:
        return [], []
    if its is None:
        return [], []
    return ([p for p in its if feasible(g, p)],
            [p for p in outs if feasible(g, p)])


def sinks_on(g, p):
    """terms handed out or collected on a path"""
    out = []
    for m in nodes_on(g, p):
        if m.kind == 'yield' and m.get('value') is not None:
            out.append(deep(g, p, m.value))
        elif m.kind == 'call' and m.get('fn') is not None and \
                m.fn.op == 'attr' and m.fn.args[1] in ('append', 'write',
                                                       'extend', 'add') \
                and m.args:
            out.append(deep(g, p, m.args[0]))
    return out


def strings(ctx, f, g, n):
    """x = x[k:] after x[:k] has been handed out"""
    its, outs = paths_of(g, n.id)
    for lv in [v for v in g.loopvars if v.args[0] == n.id]:
        for p in its:
            v = next_value(g, p, lv)
            if v is None:
                continue
            s = slice_of(v)
            if s is None or s[0] is not lv or not is_none(s[2]):
                continue
            k = s[1]
            got = []
            for x in sinks_on(g, p):
                for y in subterms(x):
                    q = slice_of(y)
                    if q is not None and q[0] is lv:
                        got.append(q)
            if not got:
                continue
            ok = any((is_none(q[1]) or is_const(q[1]) and cval(q[1]) == 0)
                     and not is_none(q[2]) and same(q[2], k) for q in got)
            key = '%s: %s' % (f.name, lv.args[1])
            if ok:
                ctx.ok('X03.split', key)
            else:
                ctx.bad('X03.split', key, '%s: the part of %s that is handed '
                        'out and the part that is kept do not make up the '
                        'whole' % (f.name, lv.args[1]), ctx.where(n))


def stepped(ctx, f, g, n):
    """x[i:i + k] for i in range(0, len(x), k)"""
    it = n.get('iter')
    if it is None:
        return
    fn, a = fn_args(it)
    if fn is None or fn.op != 'ext' or fn.args[0] != 'builtins.range' or \
            len(a) != 3:
        return
    nx = [m for m in g.nodes if m.kind == 'next' and m.loop == n.id]
    if not nx:
        return
    i = T('elem', it, nx[0].id)
    h, b = fn_args(a[1])
    if h is None or h.op != 'ext' or h.args[0] != 'builtins.len':
        return
    for m in g.nodes:
        for x in list(m.get('args') or ()) + [m.get('value')]:
            if not isinstance(x, Term):
                continue
            for y in subterms(x):
                q = slice_of(y)
                if q is None or q[0] is not b[0] or q[1] is not i or \
                        is_none(q[2]):
                    continue
                want = T('bin', '+', i, a[2])
                key = '%s: steps' % f.name
                if same(q[2], want) and is_const(a[0]) and cval(a[0]) == 0:
                    ctx.ok('X03.split', key)
                else:
                    ctx.bad('X03.split', key, '%s: the parts of %s do not '
                            'make up the whole' % (f.name, short(b[0], 40)),
                            ctx.where(n))


def triple(t):
    """((a, b), extra, x) of a chunk"""
    if t.op != 'tuple' or len(t.args) not in (2, 3):
        return None
    r = t.args[0]
    if r.op == 'tuple' and len(r.args) == 2:
        a, b = r.args
    else:
        a, b = T('item', r, 0), T('item', r, 1)
    return a, b, t.args[-1], t.args[1:-1]


def whole_of(t):
    """what a part is cut from"""
    while True:
        s = slice_of(t)
        if s is None:
            return t
        t = s[0]


def tiled(ctx, f, g, n):
    """parts of chunks with their ranges"""
    its, outs = paths_of(g, n.id)
    lvs = [v for v in g.loopvars if v.args[0] == n.id]
    ys = []
    for p in its + outs:
        for m in nodes_on(g, p):
            if m.kind == 'yield' and m.get('value') is not None:
                v = triple(deep(g, p, m.value))
                if v is not None:
                    ys.append((p, v))
    if not ys:
        return
    # the variables that hold the chunk being worked on
    state = None
    for p, (a, b, x, e) in ys:
        if slice_of(x) is None and a in lvs and b in lvs and x in lvs:
            state = (a, b, x)
    if state is None:
        return
    A, B, X = state
    key = '%s: chunks' % f.name
    bad = None
    for p in its + outs:
        em = [v for q, v in ys if q is p]
        back = p in its
        nxt = [next_value(g, p, v) if back else v for v in state]
        if any(v is None for v in nxt):
            continue
        cur = [A, B, X]
        done = False
        parts = [(v[0], v[1], v[2], True) for v in em]
        fresh = X not in set(subterms(nxt[2]))
        if not fresh:
            parts.append(tuple(nxt) + (False,))
        elif back and not em and nxt[2] is not X:
            bad = bad or 'a chunk is replaced before it is handed out'
            continue
        for a, b, x, out in parts:
            if done:
                bad = bad or 'a chunk is handed out twice'
                break
            if not same(a, cur[0]):
                bad = bad or 'a part starts at %s instead of %s' % (
                    short(a, 40), short(cur[0], 40))
                break
            if whole_of(x) is not X:
                break
            if x is cur[2]:
                if not same(b, cur[1]):
                    bad = bad or 'a whole chunk ends at %s instead of %s' \
                        % (short(b, 40), short(cur[1], 40))
                    break
                done = True
                continue
            s = slice_of(x)
            if s is None or s[0] is not cur[2]:
                bad = bad or 'a part is not cut from what is left'
                break
            if not (is_none(s[1]) or is_const(s[1]) and cval(s[1]) == 0) \
                    or is_none(s[2]):
                bad = bad or 'a part is not cut from the start of what is ' \
                    'left'
                break
            k = T('bin', '-', b, cur[0])
            if not same(s[2], k):
                bad = bad or 'the length of a part differs from that of its' \
                    ' range'
                break
            if not out:
                bad = bad or 'the start of a chunk is kept'
                break
            cur = [b, cur[1], T('sub', cur[2], T(
                'slice', s[2], T('const', None), T('const', None)))]
            for y in [z[2] for z in parts]:
                q = slice_of(y)
                if q is not None and q[0] is s[0] and is_none(q[2]) and \
                        not is_none(q[1]) and same(q[1], s[2]):
                    cur[2] = y
        else:
            if not done and back and fresh and em:
                bad = bad or 'the rest of a chunk is dropped'
            if not done and not back and em:
                bad = bad or 'the rest of a chunk is dropped'
            if not back and not em and replaced(g, n, p):
                bad = bad or 'a chunk is replaced before it is handed out'
    if bad:
        ctx.bad('X03.split', key, '%s: %s' % (f.name, bad), ctx.where(n))
    else:
        ctx.ok('X03.split', key)


def replaced(g, n, p):
    """after the loop has been left, the next chunk is taken"""
    heads = {m.id for m in g.nodes if m.kind == 'loop'}
    seen = set()
    st = [x for x, l, y in p] + [p[-1][2]]
    body = natural(g, n.id)
    st = [x for x in st if x not in body]
    while st:
        x = st.pop()
        if x in seen or x in heads:
            continue
        seen.add(x)
        m = g.nodes[x]
        if m.kind == 'yield':
            continue
        if m.kind == 'call' and m.get('fn') is not None and \
                m.fn.op == 'ext' and m.fn.args[0] == 'builtins.next':
            return True
        st += [y for y, l in m.succ if l not in ('exc', 'genexit')]
    return False


def subst(t, d):
    if t in d:
        return d[t]
    if not t.args:
        return t

    def go(a):
        if isinstance(a, Term):
            return subst(a, d)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    if t.op == 'item' and args[0].op == 'tuple' and \
            isinstance(args[1], int) and args[1] < len(args[0].args):
        return args[0].args[args[1]]
    return T(t.op, *args)


def norm(t):
    """x[0] and the first of the parts of x are the same"""
    if not isinstance(t, Term) or not t.args:
        return t

    def go(a):
        if isinstance(a, Term):
            return norm(a)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a
    args = tuple(go(a) for a in t.args)
    if t.op == 'sub' and isinstance(args[1], Term) and is_const(args[1]) \
            and isinstance(cval(args[1]), int) and cval(args[1]) >= 0:
        return T('item', args[0], cval(args[1]))
    return T(t.op, *args)


def ranged(ctx, f, g, n):
    """((start of last, start of this), value of last) for each"""
    it = n.get('iter')
    if it is None:
        return
    nx = [m for m in g.nodes if m.kind == 'next' and m.loop == n.id]
    if not nx:
        return
    E = T('elem', it, nx[0].id)
    its, outs = paths_of(g, n.id)
    lvs = [v for v in g.loopvars if v.args[0] == n.id]
    found = []
    for p in its:
        for m in nodes_on(g, p):
            if m.kind == 'yield' and m.get('value') is not None:
                v = norm(deep(g, p, m.value))
                if v.op == 'tuple' and len(v.args) == 2 and \
                        v.args[0].op == 'tuple' and len(v.args[0].args) == 2:
                    found.append((p, v.args[0].args[0], v.args[0].args[1],
                                  v.args[1]))
    if not found or len(found) != 1:
        return
    p0, a, b, s = found[0]
    if not any(v in set(subterms(a)) for v in lvs):
        return
    if whole_of(b) is not b or norm(T('item', E, 0)) is not b:
        return
    key = '%s: ranges' % f.name
    bad = None
    for p in its:
        d = {}
        for lv in lvs:
            v = next_value(g, p, lv)
            if v is not None:
                d[lv] = norm(v)
        a2, s2 = norm(subst(a, d)), norm(subst(s, d))
        if not same(a2, norm(T('item', E, 0))):
            bad = bad or 'the next range does not start where the last one' \
                ' ends'
        elif s2 is not norm(T('item', E, 1)) or s2 is s:
            bad = bad or 'a range does not get its own value'
    # the last one
    end = [y for m in nx for y, l in m.succ if l == 'F']
    body = natural(g, n.id)
    last = [m for m in g.nodes if m.kind == 'yield' and m.id not in body and
            m.get('value') is not None and m.value.op == 'tuple']
    for m in last:
        v = norm(m.value)
        if v.args[0].op == 'tuple' and len(v.args[0].args) == 2:
            x, y = v.args[0].args
            ok = x is a or same(x, norm(T('item', E, 0))) or any(
                z in set(subterms(x)) for z in lvs) or \
                any(z is E for z in subterms(x))
            if not ok or not is_const(y):
                if ok and not is_const(y):
                    continue
                bad = bad or 'the last range does not start at the last start'
            elif isinstance(cval(y), int) and cval(y) < 0x7fffffff:
                bad = bad or 'the last range ends too early'
    if not last and end:
        bad = bad or 'the last range is not handed out'
    if bad:
        ctx.bad('X03.split', key, '%s: %s' % (f.name, bad), ctx.where(n))
    else:
        ctx.ok('X03.split', key)


def grouped(ctx, f, g, n):
    """items collected in a list that is handed out for each group"""
    it = n.get('iter')
    if it is None:
        return
    nx = [m for m in g.nodes if m.kind == 'next' and m.loop == n.id]
    E = T('elem', it, nx[0].id) if nx else None
    if E is None:
        return
    its, outs = paths_of(g, n.id)
    lists = [v for v in g.loopvars if v.args[0] == n.id and any(
        strip(x).op == 'list' and not strip(x).args
        for x in [next_value(g, p, v) for p in its] if x is not None)]
    for lv in lists:
        bad = None
        key = '%s: %s' % (f.name, lv.args[1])
        seen = handed_ = False
        for p in its:
            put = handed_now = 0
            for m in nodes_on(g, p):
                if m.kind == 'call' and m.get('fn') is not None and \
                        m.fn.op == 'attr' and m.fn.args[1] == 'append' and \
                        m.args:
                    tgt = strip(deep(g, p, m.fn.args[0]))
                    x = deep(g, p, m.args[0])
                    if (tgt is lv or tgt.op == 'list') and any(
                            y is E for y in subterms(x)):
                        put += 1
                elif m.kind == 'yield' and m.get('value') is not None:
                    v = deep(g, p, m.value)
                    if lv in set(subterms(v)):
                        handed_now += 1
                        handed_ = True
            v = next_value(g, p, lv)
            if v is None:
                continue
            new = strip(v).op == 'list'
            seen |= put > 0
            if put > 1:
                bad = bad or 'an item is collected twice'
            if put == 0 and not (new and any(
                    y is E for y in subterms(strip(v)))):
                bad = bad or ('an item is not collected' if seen else None)
            none = any(known_none(c, pol, lv) for c, pol in conds_on(g, p))
            if new and not handed_now and not none:
                bad = bad or 'what was collected is dropped when a new ' \
                    'group begins'
            if handed_now and not new:
                bad = bad or 'what was collected is handed out again'
        if not seen:
            continue
        body = natural(g, n.id)
        after = [m for m in g.nodes if m.kind == 'yield' and
                 m.id not in body and m.get('value') is not None and any(
                     base(y) == base(lv) for y in subterms(m.value)
                     if y.op == 'loopvar')]
        if handed_ and not after:
            bad = bad or 'the last group is dropped'
        if not handed_ and not after:
            continue
        if bad:
            ctx.bad('X03.split', key, '%s: %s' % (f.name, bad), ctx.where(n))
        else:
            ctx.ok('X03.split', key)


def strip(t):
    while t is not None and t.op == 'container':
        t = t.args[1]
    return t


def conds_on(g, p):
    for x, l, y in p:
        n = g.nodes[x]
        if n.kind == 'branch' and l in ('T', 'F'):
            yield deep(g, p, n.cond), l == 'T'


def known_none(c, p, lv):
    while c.op == 'not':
        c, p = c.args[0], not p
    if c is lv:
        return not p
    if c.op == 'cmp' and lv in c.args[1:] and any(
            is_const(k) and k.args[0] is None for k in c.args[1:]):
        return (c.args[0] in ('is', '==')) == p
    return False


# texts ----------------------------------------------------------------------
def text_dicts(ctx, g, f):
    """(keys, node, values) of the attributes of texts that are handed out"""
    for n in g.nodes:
        if n.kind != 'yield' or n.get('value') is None:
            continue
        for t in subterms(n.value):
            if t.op == 'tuple' and len(t.args) == 3 and \
                    class_of(t.args[0]) is not None:
                d = strip(t.args[1])
                if d.op in ('dict', 'res'):
                    ks = dict_keys(d)
                    if ks is not None:
                        yield class_of(t.args[0]), ks, n


def dict_keys(d):
    if d.op == 'dict':
        out = {}
        for a in d.args:
            if isinstance(a, tuple) and len(a) == 2:
                k, v = a
            elif isinstance(a, Term) and a.op == 'tuple' and \
                    len(a.args) == 2:
                k, v = a.args
            else:
                return None
            if not isinstance(k, Term) or not is_const(k):
                return None
            out[cval(k)] = v
        return out
    fn, a = fn_args(d)
    if fn is not None and fn.op == 'ext' and fn.args[0] == 'builtins.dict' \
            and not a:
        return dict(d.args[3])
    return None


def text(ctx, A):
    """attributes of texts survive when texts are divided"""
    made, remade = {}, []
    for f in A.gens:
        g = ctx.graphs[f]
        loops = input_loops(g)
        for k, ks, n in text_dicts(ctx, g, f):
            if k.name != 'Text':
                continue
            if loops:
                remade.append((f, ks, n))
            else:
                made.setdefault(k, set()).update(ks)
    for f, ks, n in remade:
        want = set().union(*made.values()) if made else set()
        miss = want - set(ks)
        if miss:
            ctx.bad('X03.text', '%s: %s' % (f.name, sorted(miss)[0]),
                    '%s: the parts of a text lack its %s' % (
                        f.name, ', '.join(sorted(miss))), ctx.where(n))
        else:
            ctx.ok('X03.text', '%s: %s' % (f.name, ', '.join(sorted(ks))))


# streams --------------------------------------------------------------------
def streams(ctx, A):
    """a stream that is made in a function that returns a stream is passed
    on on every path"""
    for f, g in ctx.graphs.items():
        if f.module.name != XM or f.is_generator:
            continue
        made = []
        for n in g.nodes:
            if n.kind == 'mkgen' and n.get('target') in A.gens or \
                    n.kind == 'call' and stream_call(A, n):
                made.append(n)
        if not made:
            continue
        for n in made:
            r = n.get('result')
            if r is None:
                continue
            if not used_on_every_path(g, n, r):
                ctx.bad('X03.streams', '%s: %s' % (f.qualname, short(
                    n.get('fn') or T('const', n.target.name), 50)),
                    '%s: the events of %s are not passed on' % (
                        f.qualname, short(r, 60)), ctx.where(n))
            else:
                ctx.ok('X03.streams', '%s: %s' % (f.qualname, short(r, 60)))


def stream_call(A, n):
    tg = n.get('target')
    if tg is not None:
        return tg.name in ('events', 'modelevents')
    fn = n.get('fn')
    return fn is not None and fn.op == 'attr' and \
        fn.args[1] in ('events', 'modelevents')


def used_on_every_path(g, n, r):
    """no path to the return avoids all uses"""
    stops = {m.id for m in g.nodes if m.kind == 'exit-return'}
    heads = {m.id for m in g.nodes if m.kind == 'loop' and
             n.id in natural(g, m.id)}
    known = forced(g, n)
    ps = sequences(g, n.id, stops | heads | {n.id}, lambda t: None,
                   limit=600)
    if ps is None:
        return True
    merged = {phi for k, sel in g.sel.items() for phi, v in sel.items()}
    for s in ps:
        ids = []
        for x, l, y in s.edges:
            ids.append(x)
            if l == 'LOOP':
                ids += sorted(natural(g, x))
        ids.append(s.end)
        ok = False
        for i in ids[1:]:
            m = g.nodes[i]
            if m is n:
                continue
            for v in terms_of(m):
                if occurs(v, r, known) or any(
                        y in merged for y in subterms(v)) and occurs(
                        deep(g, s.edges, v), r, known):
                    ok = True
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def forced(g, n):
    """conditions that hold wherever n is reached"""
    out = {}
    for b in g.nodes:
        if b.kind != 'branch':
            continue
        for lab in ('T', 'F'):
            seen, st = set(), [g.entry]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y, l in g.nodes[x].succ:
                    if x == b.id and l == lab:
                        continue
                    st.append(y)
            if n.id not in seen:
                out[b.cond] = lab == 'T'
    return out


def occurs(t, r, known):
    """r is a part of t whatever the undecided conditions are"""
    if t is r:
        return True
    if t.op == 'ite':
        k = known.get(t.args[0])
        if k is not None:
            return occurs(t.args[1 if k else 2], r, known)
        return occurs(t.args[1], r, known) and occurs(t.args[2], r, known)

    def go(a):
        if isinstance(a, Term):
            return occurs(a, r, known)
        if isinstance(a, (tuple, list)):
            return any(go(x) for x in a)
        return False
    return any(go(a) for a in t.args)


def terms_of(n):
    for k in ('args', 'value', 'iter', 'obj', 'fn'):
        v = n.get(k)
        for x in (v if isinstance(v, (tuple, list)) else [v]):
            if isinstance(x, Term):
                yield x
    for k, x in dict(n.get('kw') or {}).items():
        if isinstance(x, Term):
            yield x


M = 'hwp5/xmlmodel.py'
TREE = 'hwp5/treeop.py'
witnesses = [
    ('blank texts are not written', 'hwp5/xmlformat.py',
     '    if text:\n        yield Text, text',
     '    if text and text.strip():\n        yield Text, text'),
    ('long arrays are cut', 'hwp5/xmlformat.py',
     '                for _itemvalue in _value:\n                    for x in element',
     '                for _itemvalue in _value[:64]:\n                    for x in element'),
    ('items of zeros are not written', 'hwp5/xmlformat.py',
     '                for _itemvalue in _value:\n                    for x in element',
     '                for _itemvalue in _value:\n                    if not any(_itemvalue.values()):\n                        continue\n                    for x in element'),
    ('margins of zeros are not written', 'hwp5/xmlformat.py',
     '            if t is Margin:\n                p[name] = item',
     '            if t is Margin:\n                if any(value.values()):\n                    p[name] = item'),
    ('blank texts are not written as XML', 'hwp5/xmlformat.py',
     "            text = escape(item)\n            text = ILLEGAL_XML_CHARS.sub('', text)\n            yield text",
     "            text = escape(item)\n            text = ILLEGAL_XML_CHARS.sub('', text)\n            if not item.isspace():\n                yield text"),
    ('empty attributes are not written', 'hwp5/xmlformat.py',
     "        yield k.replace('_', '-'), v",
     "        if v:\n            yield k.replace('_', '-'), v"),
    ('bits of zero are not written', 'hwp5/xmlformat.py',
     '            yield k, xmlattrval(v)\n    elif',
     '            if v:\n                yield k, xmlattrval(v)\n    elif'),
    ('a control stays in the queue', 'hwp5/xmlmodel.py',
     '            control_subtree = paragraph_controls.pop(0)\n',
     '            control_subtree = paragraph_controls[0]\n'),
    ('a later control replaces an earlier one', 'hwp5/xmlmodel.py',
     '            paragraph_controls = paragraph.setdefault(Control, [])\n            paragraph_controls.append(control_subtree)\n',
     '            paragraph[Control] = [control_subtree]\n'),
    ('drop under condition', M, """        elif model in (ParaText, ParaCharShape, ParaLineSeg, ParaRangeTag):
            if event == STARTEVENT:
                stack[-1][model] = model, attributes, context
""", """        elif model in (ParaText, ParaCharShape, ParaLineSeg, ParaRangeTag):
            if event == STARTEVENT and model is not ParaCharShape:
                stack[-1][model] = model, attributes, context
"""),
    ('stored not read', M, "stack[-1].get(ParaLineSeg)",
     "stack[-1].get(ParaText)"),
    ('stored read then ignored', M, """paratext,
                                                                paracharshape,
""", """paratext,
                                                                paralineseg,
"""),
    ('section start lost', M, """                for evented_item in starting_buffer:
                    yield evented_item
                started = True
""", """                started = True
"""),
    ('section start twice', M, """    if started:
        yield ENDEVENT, sectiondef
    else:
        for evented_item in starting_buffer:
            yield evented_item
""", """    if started:
        yield ENDEVENT, sectiondef
    for evented_item in starting_buffer:
        yield evented_item
"""),
    ('section without definition', M, """        yield ENDEVENT, sectiondef
    else:
        for evented_item in starting_buffer:
            yield evented_item
""", """        yield ENDEVENT, sectiondef
"""),
    ('children of section definition', M, """                for k in tree_events_multi(sectdef_child):
                    yield k
""", ""),
    ('controls in reverse', M, "paragraph_controls.pop(0)",
     "paragraph_controls.pop()"),
    ('controls from the middle', M, "paragraph_controls.pop(0)",
     "paragraph_controls.pop(1)"),
    ('controls dropped', M, """        paragraph = stack[-1]
        for control_subtree in paragraph.get(Control, ()):
            for x in meci_control(stack, control_subtree):
                yield x
        yield ENDEVENT""", """        yield ENDEVENT"""),
    ('control not queued', M, """            paragraph_controls.append(control_subtree)
""", ""),
    ('field twice', M, """        stack.append(item)
        yield event, item
    else:
        pass
""", """        stack.append(item)
        yield event, item
        yield ENDEVENT, item
        yield event, item
    else:
        pass
"""),
    ('tokens', M, """                        'charshape_id': charshape_id,
                        'lang'""", """                        'lang'"""),
    ('token of one char', M, """            if event is STARTEVENT:
                charshape_id = attributes['charshape_id']
""", """            if event is STARTEVENT and len(attributes['text']) > 1:
                charshape_id = attributes['charshape_id']
"""),
    ('split', M, """                        chunk[shape_end - chunk_start:])
""", """                        chunk[shape_end - chunk_start + 1:])
"""),
    ('split range', M, """                nexT = ((shape_end, chunk_end),
""", """                nexT = ((chunk_start, chunk_end),
"""),
    ('split absolute', M, """                        chunk[:shape_end - chunk_start])
""", """                        chunk[:shape_end])
"""),
    ('split rest', M, """            if nexT is not None:
                (chunk_start, chunk_end), chunk = nexT
                continue

""", ""),
    ('split far', M, """            if shape_end <= chunk_start:        # (1)
                break
""", """            if shape_end <= chunk_start:        # (1)
                (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
                break
"""),
    ('ranges', M, """            yield (last[0], item[0]), last[1]
""", """            yield (last[0], item[0]), item[1]
"""),
    ('ranges short', M, """            yield (last[0], item[0]), last[1]
        last = item
""", """            yield (last[0], item[0]), last[1]
            last = None
        else:
            last = item
"""),
    ('last range', M, """    yield (item[0], 0x7fffffff), item[1]
""", """    yield (item[0], 0x7fff), item[1]
"""),
    ('lines', M, """            if line is not None:
                yield prev_lineseg, line
            line = []
        line.append""", """            line = []
        line.append"""),
    ('lines dropped first', M, """            line = []
        line.append(((chunk_start, chunk_end), chunk_attr, chunk))
""", """            line = []
        else:
            line.append(((chunk_start, chunk_end), chunk_attr, chunk))
"""),
    ('last line', M, """    if line is not None:
        yield prev_lineseg, line


""", """

"""),
    ('base64', M, "                        b64 = b64[64:]",
     "                        b64 = b64[65:]"),
    ('section stream', M, """            bodytext_events.append(events)
""", """            if idx == 0:
                bodytext_events.append(events)
"""),
    ('chain', M, """        events = chain(self.summaryinfo.events(**kwargs),
                       self.docinfo.events(**kwargs),
""", """        summary = self.summaryinfo.events(**kwargs)
        if not kwargs.get('embedbin'):
            summary = ()
        events = chain(summary, self.docinfo.events(**kwargs),
"""),
    ('subtree', TREE, """            childs.append(build_subtree(event_prefixed_items))
""", """            subtree = build_subtree(event_prefixed_items)
            if subtree[1]:
                childs.append(subtree)
"""),
    ('subtree order', TREE, """            childs.append(build_subtree(event_prefixed_items))
""", """            childs.insert(0, build_subtree(event_prefixed_items))
"""),
]
benign = [
    ('text tested by length', 'hwp5/xmlformat.py',
     '    if text:\n        yield Text, text',
     '    if text is not None and len(text) > 0:\n        yield Text, text'),
    ('margins first', 'hwp5/xmlformat.py',
     '            if t is Margin:\n                p[name] = item\n            elif is_complex_type(t, value):\n                d.append(named_item)\n            else:\n                p[name] = item\n',
     '            if t is Margin:\n                p[name] = item\n                continue\n            if is_complex_type(t, value):\n                target = d\n                target.append((name, item))\n                continue\n            p[name] = item\n'),
    ('array by a helper', 'hwp5/xmlformat.py',
     '                for _itemvalue in _value:\n                    for x in element(context, (_type.itemtype, _itemvalue)):\n                        yield x\n',
     '                itemtype = _type.itemtype\n                for x in chain(*(element(context, (itemtype, v))\n                                 for v in _value)):\n                    yield x\n'),
    ('copied before written', 'hwp5/xmlformat.py',
     '                for _itemvalue in _value:\n                    for x in element',
     '                for _itemvalue in list(_value)[:]:\n                    for x in element'),
    ('names kept in a list', 'hwp5/xmlformat.py',
     "        yield k.replace('_', '-'), v",
     "        name = k.replace('_', '-')\n        pair = (name, v)\n        yield pair"),
    ('flags by index', 'hwp5/xmlformat.py',
     '        for k, v in t.dictvalue(t(value)).items():\n            yield k, xmlattrval(v)',
     '        bits = t.dictvalue(t(value))\n        for k in bits:\n            yield k, xmlattrval(bits[k])'),
    ('text sent early', 'hwp5/xmlformat.py',
     "            text = escape(item)\n            text = ILLEGAL_XML_CHARS.sub('', text)\n            yield text",
     "            if item:\n                yield ILLEGAL_XML_CHARS.sub('', escape(item))"),
    ('the queue is made when needed', 'hwp5/xmlmodel.py',
     '            paragraph_controls = paragraph.setdefault(Control, [])\n            paragraph_controls.append(control_subtree)\n',
     '            if Control in paragraph:\n                paragraph[Control].append(control_subtree)\n            else:\n                paragraph[Control] = [control_subtree]\n'),
    ('the queue is rebuilt', 'hwp5/xmlmodel.py',
     '            paragraph_controls = paragraph.setdefault(Control, [])\n            paragraph_controls.append(control_subtree)\n',
     '            paragraph[Control] = (paragraph.get(Control, [])\n                                  + [control_subtree])\n'),
    ('read and deleted', 'hwp5/xmlmodel.py',
     '            control_subtree = paragraph_controls.pop(0)\n',
     '            control_subtree = paragraph_controls[0]\n            del paragraph_controls[0]\n'),
    ('read and popped', 'hwp5/xmlmodel.py',
     '            control_subtree = paragraph_controls.pop(0)\n',
     '            control_subtree = paragraph_controls[0]\n            paragraph_controls.pop(0)\n'),
    ('read and sliced', 'hwp5/xmlmodel.py',
     '            control_subtree = paragraph_controls.pop(0)\n',
     '            control_subtree = paragraph_controls[0]\n            paragraph[Control] = paragraph_controls[1:]\n'),
    ('grouping', M, """    prev_lineseg = None
    line = None
    for ((chunk_start, chunk_end),
         (lineseg, chunk_attr),
         chunk) in split_and_shape(chunks, ranged_linesegs):
        if lineseg is not prev_lineseg:
            if line is not None:
                yield prev_lineseg, line
            line = []
        line.append(((chunk_start, chunk_end), chunk_attr, chunk))
        prev_lineseg = lineseg
""", """    prev_lineseg = None
    line = None
    for rng, attrs, chunk in split_and_shape(chunks, ranged_linesegs):
        lineseg, chunk_attr = attrs
        entry = (rng, chunk_attr, chunk)
        if lineseg is prev_lineseg:
            line.append(entry)
            continue
        if line is not None:
            yield prev_lineseg, line
        line = [entry]
        prev_lineseg = lineseg
"""),
    ('grouping by tool', M, """    prev_lineseg = None
    line = None
    for ((chunk_start, chunk_end),
         (lineseg, chunk_attr),
         chunk) in split_and_shape(chunks, ranged_linesegs):
        if lineseg is not prev_lineseg:
            if line is not None:
                yield prev_lineseg, line
            line = []
        line.append(((chunk_start, chunk_end), chunk_attr, chunk))
        prev_lineseg = lineseg
    if line is not None:
        yield prev_lineseg, line
""", """    from itertools import groupby
    for key, group in groupby(split_and_shape(chunks, ranged_linesegs),
                              lambda x: id(x[1][0])):
        group = list(group)
        yield group[0][1][0], [(r, a[1], c) for r, a, c in group]
"""),
    ('ranges', M, """    last = None
    for item in shapes:
        if last is not None:
            yield (last[0], item[0]), last[1]
        last = item
    yield (item[0], 0x7fffffff), item[1]
""", """    start = shape = None
    for pos, value in shapes:
        if start is not None:
            yield (start, pos), shape
        start, shape = pos, value
    yield (start, 0x7fffffff), shape
"""),
    ('split', M, """                prev = ((chunk_start, shape_end),
                        chunk[:shape_end - chunk_start])
                nexT = ((shape_end, chunk_end),
                        chunk[shape_end - chunk_start:])
                (chunk_start, chunk_end), chunk = prev
            else:
                nexT = None

            assert chunk_end <= shape_end       # by (2)
            yield (chunk_start, chunk_end), (shape, chunk_attr), chunk

            if nexT is not None:
                (chunk_start, chunk_end), chunk = nexT
                continue

""", """                cut = shape_end - chunk_start
                yield ((chunk_start, shape_end), (shape, chunk_attr),
                       chunk[:cut])
                chunk_start, chunk = shape_end, chunk[cut:]
                continue

            yield (chunk_start, chunk_end), (shape, chunk_attr), chunk

"""),
    ('base64', M, """                truncated = []
                while b64:
                    if len(b64) > 64:
                        truncated.append(b64[:64])
                        b64 = b64[64:]
                    else:
                        truncated.append(b64)
                        b64 = ''
""", """                truncated = []
                for i in range(0, len(b64), 64):
                    truncated.append(b64[i:i + 64])
"""),
    ('base64 while', M, """                while b64:
                    if len(b64) > 64:
                        truncated.append(b64[:64])
                        b64 = b64[64:]
                    else:
                        truncated.append(b64)
                        b64 = ''
""", """                while len(b64) > 64:
                    line, b64 = b64[:64], b64[64:]
                    truncated.append(line)
                truncated.append(b64)
"""),
    ('queue', M, """            paragraph_controls = paragraph.get(Control)
            control_subtree = paragraph_controls.pop(0)
""", """            control_subtree = paragraph[Control].pop(0)
"""),
    ('deque', M, [("paragraph.setdefault(Control, [])",
                   "paragraph.setdefault(Control, deque())"),
                  ("paragraph_controls.pop(0)",
                   "paragraph_controls.popleft()")]),
    ('stored', M, """                stack[-1][model] = model, attributes, context
""", """                paragraph = stack[-1]
                paragraph[model] = item
"""),
    ('section', M, [("""            if model is SectionDef and event is STARTEVENT:
                sectiondef""", """            if not (event is STARTEVENT and model is SectionDef):
                starting_buffer.append((event, item))
            else:
                sectiondef"""), ("""                started = True
            else:
                starting_buffer.append((event, item))
""", """                started = True
""")]),
    ('chain', M, """        events = chain(self.summaryinfo.events(**kwargs),
                       self.docinfo.events(**kwargs),
                       self.text.events(**kwargs))
""", """        parts = (self.summaryinfo, self.docinfo, self.text)
        events = chain(*[part.events(**kwargs) for part in parts])
"""),
    ('sections', M, """            section = self.section(idx)
            events = section.events(**kwargs)
            bodytext_events.append(events)
""", """            bodytext_events.append(self.section(idx).events(**kwargs))
"""),
    ('tree', TREE, """            childs.append(build_subtree(event_prefixed_items))
        elif event == ENDEVENT:
            return item, childs
""", """            subtree = build_subtree(event_prefixed_items)
            childs.append(subtree)
        else:
            return item, childs
"""),
]
