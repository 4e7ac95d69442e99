# -*- coding: utf-8 -*-
"""Deciding a construct case by case: the branches of a flow graph are
resolved under an abstract valuation of their conditions and the nodes that
remain reachable are reported."""
from .terms import T, Term, is_const, cval, subterms


def value(c, ev):
    """True / False / None of a condition under a valuation of its atoms"""
    r = ev(c)
    if r is not None:
        return r
    if c.op == 'not':
        r = value(c.args[0], ev)
        return None if r is None else not r
    if c.op == 'and':
        rs = [value(x, ev) for x in c.args]
        if any(x is False for x in rs):
            return False
        return True if all(x is True for x in rs) else None
    if c.op == 'or':
        rs = [value(x, ev) for x in c.args]
        if any(x is True for x in rs):
            return True
        return False if all(x is False for x in rs) else None
    if c.op == 'ite' and len(c.args) == 3:
        k = value(c.args[0], ev)
        if k is not None:
            return value(c.args[1] if k else c.args[2], ev)
        a, b = value(c.args[1], ev), value(c.args[2], ev)
        return a if a == b else None
    if is_const(c):
        return bool(c.args[0])
    return None


def walk(g, starts, ev, stops=(), skip=('exc', 'genexit')):
    """nodes reachable from starts, not going beyond `stops`, when every
    condition ev decides takes only its decided branch"""
    seen = set()
    st = list(starts)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in stops:
            continue
        n = g.nodes[x]
        want = None
        if n.kind in ('branch', 'assert') and n.get('cond') is not None:
            want = value(n.cond, ev)
        for y, l in n.succ:
            if want is not None and l in ('T', 'F') and (l == 'T') != want:
                continue
            if l in skip:
                continue
            st.append(y)
    return seen


def rel(a, b, cmp):
    """valuation of comparisons of terms a and b, with cmp in -1, 0, 1, and
    of truth / None tests"""
    table = {'<': cmp < 0, '<=': cmp <= 0, '==': cmp == 0, '!=': cmp != 0,
             '>': cmp > 0, '>=': cmp >= 0, 'is': None, 'is not': None}
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}

    def ev(c):
        if c.op != 'cmp':
            return None
        op, x, y = c.args
        if x is a and y is b:
            return table.get(op)
        if x is b and y is a:
            return table.get(flip.get(op, op))
        return None
    return ev


def notnone(a, isnone):
    def ev(c):
        if c is a and isnone:
            return False
        if c.op == 'cmp' and c.args[1] is a and is_const(c.args[2]) and \
                c.args[2].args[0] is None:
            if c.args[0] in ('is', '=='):
                return isnone
            if c.args[0] in ('is not', '!='):
                return not isnone
        return None
    return ev


def either(*evs):
    def ev(c):
        for e in evs:
            r = e(c)
            if r is not None:
                return r
        return None
    return ev


def feasible(g, starts, targets, via=(), limit=200000):
    """nodes of `targets` reachable from `starts` without entering `via`, on
    paths that do not contradict themselves: a condition keeps its outcome
    until one of the values in it is computed again"""
    via = set(via)
    targets = set(targets)
    made = {}
    for n in g.nodes:
        for k in ('result',):
            r = n.get(k)
            if isinstance(r, Term):
                made[n.id] = r
    conds = {}
    for n in g.nodes:
        if n.kind == 'branch' and isinstance(n.get('cond'), Term):
            c, neg = n.cond, False
            while c.op == 'not':
                c, neg = c.args[0], not neg
            conds[n.id] = (c, neg)
    subs = {c: set(subterms(c)) for c, _ in conds.values()}
    count = {}
    for c, _ in conds.values():
        count[c] = count.get(c, 0) + 1
    hit = set()
    seen = set()
    st = [(s, frozenset()) for s in starts if s not in via]
    while st:
        x, known = st.pop()
        if (x, known) in seen:
            continue
        seen.add((x, known))
        if len(seen) > limit:
            return targets          # gave up: assume reachable
        if x in targets:
            hit.add(x)
        r = made.get(x)
        if r is not None and known:
            known = frozenset(k for k in known if r not in subs[k[0]])
        c = conds.get(x)
        for y, l in g.nodes[x].succ:
            if y in via:
                continue
            k2 = known
            if c is not None and l in ('T', 'F'):
                val = (l == 'T') != c[1]
                d = dict(known)
                if c[0] in d:
                    if d[c[0]] != val:
                        continue
                elif count[c[0]] > 1:
                    k2 = known | {(c[0], val)}
            st.append((y, k2))
    return hit
