# -*- coding: utf-8 -*-
"""Helpers shared by the checks."""
from ..terms import T, Term, is_const, cval, show, subterms, canon, \
    alternatives, mk_not
from ..flow import reachable, dominators, facts_at, dom_chain
from ..paths import refine, try_refine


def short(t, n=120):
    s = show(t) if isinstance(t, Term) else str(t)
    return s if len(s) <= n else s[:n - 20] + '…' + s[-18:]


def norm_facts(facts):
    """flatten (cond, polarity) facts: not/and/or removed, comparisons given
    with polarity True"""
    out = []
    st = [(f[0], f[1]) for f in facts if f[0] is not None]
    while st:
        c, p = st.pop()
        if c.op == 'not':
            st.append((c.args[0], not p))
        elif c.op == 'and' and p or c.op == 'or' and not p:
            st.extend((x, p) for x in c.args)
        elif c.op == 'cmp' and not p:
            out.append((mk_not(c), True))
        else:
            out.append((c, p))
    return out


def is_len_of(t, v):
    return t.op == 'pure' and t.args[0] is T('ext', 'builtins.len') and \
        t.args[1][0] is v


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def cmp_pairs(facts):
    """(op, a, b) for both orientations of every comparison fact"""
    for c, p in norm_facts(facts):
        if c.op == 'cmp' and p:
            op, a, b = c.args
            yield op, a, b
            if op in FLIP:
                yield FLIP[op], b, a


def len_at_least(facts, v, size):
    """facts imply len(v) >= size"""
    for op, a, b in cmp_pairs(facts):
        if is_len_of(a, v) and b is size and op in ('>=', '==', '>'):
            return True
        # size - len(v) <= 0 / == 0, or a running remainder that reached 0
        if a.op == 'bin' and a.args[0] == '-' and a.args[1] is size and \
                is_len_of(a.args[2], v) and cval(b) == 0 and \
                op in ('<=', '=='):
            return True
    return False


def passes_through(g, starts, targets, via):
    """nodes of `targets` reachable from starts without entering `via`"""
    seen = set()
    st = [s for s in starts if s not in via]
    hit = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in targets:
            hit.append(x)
        for y, l in g.nodes[x].succ:
            if y not in via and y not in seen:
                st.append(y)
    return hit


def names_of_types(types):
    out = []
    for t in types:
        if t.op == 'class':
            out.append(t.args[0].name)
        elif t.op == 'ext':
            out.append(t.args[0].split('.')[-1])
        else:
            out.append(show(t))
    return out


def call_name(n):
    """printable name of a call node's callee"""
    fn = n.get('fn')
    if fn is None:
        return '?'
    if fn.op == 'func':
        return fn.args[0].fullname
    if fn.op == 'ext':
        return fn.args[0]
    return show(fn)


def fn_args(t):
    """(function term, args) of a call result term"""
    if t.op == 'res':
        return t.args[1], t.args[2]
    if t.op == 'pure':
        return t.args[0], t.args[1]
    return None, ()


def lookup(t, key):
    """base of base[key], base.get(key...), base.pop(key...), or None"""
    if t.op == 'sub' and cval(t.args[1]) == key:
        return t.args[0]
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'attr' and fn.args[1] in (
            'get', 'pop', 'setdefault') and args and cval(args[0]) == key:
        return fn.args[0]
    if t.op in ('phi', 'ite'):
        r = {lookup(a, key) for a in alternatives(t)
             if not (is_const(a) and a.args[0] is None)}
        if len(r) == 1:
            return r.pop()
    return None


def default_of(t):
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'attr' and len(args) > 1:
        return args[1]
    return None


def part(t, i):
    """base of the i-th component of a sequence"""
    if t.op == 'item' and t.args[1] == i:
        return t.args[0]
    if t.op == 'item' and is_const(t.args[1]) and cval(t.args[1]) == i:
        return t.args[0]
    if t.op == 'sub' and cval(t.args[1]) == i and \
            type(cval(t.args[1])) is int:
        return t.args[0]
    return None


def parts(t, path):
    """base of t = base.path, path innermost first: ints are components,
    strings are lookups"""
    for p in reversed(path):
        t = part(t, p) if isinstance(p, int) else lookup(t, p)
        if t is None:
            return None
    return t


def returns(g):
    return [n for n in g.nodes if n.kind == 'exit-return']


def ret_values(g):
    """non-None alternatives of the returned values, with their nodes"""
    for n in returns(g):
        for a in alternatives(n.value):
            yield n, a


def is_none(t):
    return is_const(t) and t.args[0] is None


def term_values(n):
    """all terms held by a node"""
    for v in n.d.values():
        for x in (v if isinstance(v, tuple) else (v,)):
            if isinstance(x, tuple) and len(x) == 2:
                x = x[1]
            if isinstance(x, Term):
                yield x
