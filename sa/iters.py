# -*- coding: utf-8 -*-
"""Iterations of loops as paths of the flow graph, with the values that the
merge points take along a path."""
from .terms import T, Term, is_const, cval, subterms, alternatives
from .cases import value
from .paths import truth_of


def natural(g, h):
    """nodes of the loop with header h"""
    cache = g.__dict__.setdefault('_natural', {})
    if h in cache:
        return cache[h]
    # nodes that are reached without the header are no part of the loop
    before, st = set(), [g.entry]
    while st:
        x = st.pop()
        if x in before or x == h:
            continue
        before.add(x)
        st.extend(y for y, l in g.nodes[x].succ
                  if l not in ('exc', 'genexit'))
    body = {h}
    st = [x for x, l in g.nodes[h].pred if x not in before and
          l not in ('exc', 'genexit')]
    while st:
        x = st.pop()
        if x in body or x in before:
            continue
        body.add(x)
        st.extend(y for y, l in g.nodes[x].pred
                  if l not in ('exc', 'genexit'))
    cache[h] = body
    return body


def paths(g, start, stops, ev=None, skip=('exc', 'genexit'), limit=4000,
          within=None):
    """edge lists [(x, label, y)] from start to the first node of stops;
    every inner loop is passed at most once"""
    out = []
    st = [(start, (), frozenset(), {})]
    while st:
        x, p, seen, known = st.pop()
        if p and x in stops:
            out.append(p)
            if len(out) > limit:
                return None
            continue
        n = g.nodes[x]
        want = c = None
        if n.kind in ('branch', 'assert') and n.get('cond') is not None:
            c = n.cond
            want = value(c, lambda t: decided(t, known, ev))
        for y, l in n.succ:
            if l in skip or within is not None and y not in within and \
                    y not in stops:
                continue
            if want is not None and l in ('T', 'F') and (l == 'T') != want:
                continue
            kn = known
            if c is not None and l in ('T', 'F') and want is None:
                kn = dict(known)
                learn(kn, c, l == 'T')
            if y in stops:
                st.append((y, p + ((x, l, y),), seen, kn))
                continue
            if y in seen and g.nodes[y].kind not in ('loop', 'next',
                                                     'branch'):
                continue
            if (x, y) in seen and n.kind != 'loop':
                continue
            st.append((y, p + ((x, l, y),), seen | {y, (x, y)}, kn))
    return out


def decided(t, known, ev):
    r = ev(t) if ev is not None else None
    if r is None:
        r = known.get(t)
    if r is None and t.op == 'cmp' and t.args[0] in NEG:
        r = known.get(T('cmp', NEG[t.args[0]], *t.args[1:]))
        r = None if r is None else not r
    return r


NEG = {'==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is', '<': '>=',
       '>=': '<', '>': '<=', '<=': '>', 'in': 'not in', 'not in': 'in'}


def learn(known, c, pol):
    known[c] = pol
    if c.op == 'not':
        learn(known, c.args[0], not pol)
    elif c.op == 'and' and pol or c.op == 'or' and not pol:
        for x in c.args:
            learn(known, x, pol)


def iterations(g, h, ev=None, **kw):
    """paths of one iteration: from the header to the header or out"""
    body = natural(g, h)
    outside = {y for x in body for y, l in g.nodes[x].succ
               if y not in body and l not in ('exc', 'genexit')}
    ps = paths(g, h, {h} | outside, ev, **kw)
    if ps is None:
        return None, None
    return [p for p in ps if p[-1][2] == h], \
        [p for p in ps if p[-1][2] != h]


def chosen(g, path, t, depth=0):
    """t with the values that merge points have taken along the path"""
    for x, l, y in reversed(path):
        d = g.sel.get((x, l))
        if d and t in d and d[t] is not None and d[t] is not t:
            return chosen(g, path, d[t], depth + 1) if depth < 20 else d[t]
    return t


def next_value(g, path, lv):
    """the value of a loop variable at the end of an iteration"""
    x, l, y = path[-1]
    d = g.sel.get((x, l)) or {}
    v = d.get(lv)
    if v is None:
        vs = g.loopvars.get(lv, (None, []))[1]
        if len(vs) != 1 and len(set(vs)) != 1:
            return None
        v = vs[0]
    return settle(g, path, v)


def settle(g, path, v):
    """v under the branches taken on the path"""
    conds = {}
    if path and path[-1][2] == path[0][0]:
        path = path[:-1]
    for x, l, y in path:
        n = g.nodes[x]
        if n.kind == 'branch' and l in ('T', 'F') and \
                n.get('cond') is not None:
            learn(conds, n.cond, l == 'T')

    def ev(c):
        return decided(c, conds, None)
    for _ in range(30):
        if v.op == 'ite' and len(v.args) == 3:
            k = value(v.args[0], ev)
            if k is None:
                return v
            v = v.args[1] if k else v.args[2]
            continue
        w = v
        for x, l, y in reversed(path):
            d = g.sel.get((x, l))
            if d and v in d and d[v] is not None and d[v] is not v:
                w = d[v]
                break
        if w is v:
            return v
        v = w
    return v


def nodes_on(g, path):
    return [g.nodes[x] for x, l, y in path]


def deep(g, path, t, memo=None):
    """t with every merge in it resolved along the path"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    v = settle(g, path, t)
    if v is not t:
        r = deep(g, path, v, memo)
    else:
        r = _rebuild(t, lambda x: deep(g, path, x, memo))
    memo[t] = r
    return r


def _rebuild(t, fn):
    if t.op in ('const', 'sym', 'ext', 'class', 'func', 'loopvar', 'elem',
                'inst', 'gval', 'exc', 'res'):
        return t

    def arg(a):
        if isinstance(a, Term):
            return fn(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a
    new = tuple(arg(a) for a in t.args)
    if new == t.args:
        return t
    if t.op == 'item' and isinstance(new[0], Term) and new[0].op in (
            'tuple', 'list') and isinstance(new[1], int) and \
            new[1] < len(new[0].args):
        return new[0].args[new[1]]
    return T(t.op, *new)


def feasible(g, path):
    """no branch of the path contradicts the values on it"""
    for i, (x, l, y) in enumerate(path):
        n = g.nodes[x]
        if n.kind != 'branch' or l not in ('T', 'F') or \
                n.get('cond') is None:
            continue
        c = deep(g, path[:i] or path[:1], n.cond)
        r = truth_of(c)
        if r is None and c.op == 'cmp' and c.args[0] in ('is', 'is not') \
                and is_const(c.args[2]) and c.args[2].args[0] is None:
            a = c.args[1]
            if is_const(a):
                r = (a.args[0] is None) == (c.args[0] == 'is')
            elif a.op in ('tuple', 'list', 'dict'):
                r = c.args[0] == 'is not'
        if r is not None and r != (l == 'T'):
            return False
    return True
