# -*- coding: utf-8 -*-
"""Path-sensitive refinement of a flow graph.

`refine(g)` builds the product of the control-flow graph with the choices made
at merge points (which operand of a phi was taken) and at branches (which
polarity a condition has), as far as later conditions depend on them. Edges
contradicting an earlier choice disappear, and the terms of the copied nodes
are simplified under the choices. The result is a Graph again."""
from .flow import Graph, Node, endless
from .terms import (T, Term, const, TRUE, FALSE, is_const, cval, ite, phi, mk_not,
                    subterms, show)

TERMKEYS = ('value', 'cond', 'args', 'kw', 'fn', 'obj', 'key', 'exc', 'iter',
            'result')

TRUTHY = ('func', 'class', 'module', 'bound', 'inst', 'gencall', 'lambda')


def truth_of(t):
    if is_const(t):
        return bool(t.args[0])
    if t.op in ('tuple', 'list', 'dict', 'set'):
        if any(isinstance(x, Term) and x.op == 'star' for x in t.args):
            return None
        return bool(t.args)
    if t.op in TRUTHY:
        return True
    return None


class Simp:
    def __init__(self, env, loopvars=None):
        self.env = env          # term -> Term (phi choice) or bool (cond)
        self.memo = {}
        self.loopvars = loopvars or {}

    def notnone(self, t, depth=0):
        if is_const(t):
            return t.args[0] is not None
        if t.op in NOTNONE:
            return True
        if t.op == 'elem' and endless(t.args[0]) and \
                'count' in show(t.args[0]):
            return True
        if t.op == 'loopvar' and depth < 3:
            lv = self.loopvars.get(t)
            if lv is None:
                return False
            return all(isinstance(x, Term) and
                       (x is t or self.notnone(x, depth + 1))
                       for x in (lv[0],) + tuple(lv[1]))
        if t.op == 'res' and t.args[1].op == 'attr' and \
                t.args[1].args[1] in ('read', 'tell') and \
                t.args[1].args[0].op in ('gval', 'cval'):
            return True
        return False

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, Term):
            return t
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t        # cycle guard
            r = self._simp(t)
            self.memo[t] = r
        return r

    def truth(self, t):
        v = self.env.get(t)
        if isinstance(v, bool):
            return v
        r = self(t)
        if r is not t:
            v = self.env.get(r)
            if isinstance(v, bool):
                return v
        if r.op == 'not':
            v = self.truth(r.args[0])
            return None if v is None else not v
        v = truth_of(r)
        if v is not None:
            return v
        if r.op == 'and':
            vs = [self.truth(x) for x in r.args]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if r.op == 'or':
            vs = [self.truth(x) for x in r.args]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if r.op == 'cmp':
            n = mk_not(r)
            v = self.env.get(n)
            if isinstance(v, bool):
                return not v
        return None

    def _simp(self, t):
        op = t.op
        if op in ('const', 'sym', 'ext', 'func', 'class', 'module', 'gval',
                  'cval', 'inst'):
            return t
        if op == 'loopvar':
            v = self.env.get(t)
            return v if isinstance(v, Term) else t
        v = self.env.get(t)
        if isinstance(v, Term):
            return self(v)
        if op == 'ite':
            c = self.truth(t.args[0])
            if c is True:
                return self(t.args[1])
            if c is False:
                return self(t.args[2])
            return ite(t.args[0], self(t.args[1]), self(t.args[2]))
        if op == 'phi':
            return phi([self(x) for x in t.args])
        if op in ('res', 'elem', 'comp'):
            # identity matters: arguments are simplified, the identity is not
            pass
        new = tuple(self(x) if isinstance(x, (Term, tuple)) else x
                    for x in t.args)
        if any(a is not b and not (isinstance(a, tuple) and a == b)
               for a, b in zip(new, t.args)):
            t = T(op, *new)
        if op == 'cmp':
            if t.args[0] in ('is', 'is not') and is_const(t.args[2]) and \
                    t.args[2].args[0] is None and self.notnone(t.args[1]):
                return const(t.args[0] == 'is not')
            return fold_cmp(t)
        if op in ('sub', 'item') and isinstance(t.args[0], Term):
            o = t.args[0]
            k = cval(t.args[1]) if op == 'sub' else t.args[1]
            if o.op == 'ite':
                return ite(o.args[0],
                           self(T(op, o.args[1], t.args[1])),
                           self(T(op, o.args[2], t.args[1])))
            if o.op in ('tuple', 'list') and isinstance(k, int) and \
                    -len(o.args) <= k < len(o.args) and \
                    not any(x.op == 'star' for x in o.args):
                return o.args[k]
            if o.op == 'dict' and op == 'sub' and is_const(t.args[1]):
                for a, b in reversed(o.args):
                    if a is t.args[1]:
                        return b
                    if not is_const(a):
                        break
        if op == 'not':
            c = self.truth(t.args[0])
            if c is not None:
                return const(not c)
        return t


NOTNONE = ('tuple', 'list', 'dict', 'set', 'func', 'class', 'module', 'bound',
           'inst', 'gencall', 'bin', 'cmp', 'not', 'elemdict')


def fold_cmp(t):
    op, a, b = t.args
    if op in ('is', 'is not'):
        for x, y in ((a, b), (b, a)):
            if is_const(y) and y.args[0] is None:
                if is_const(x):
                    r = x.args[0] is None
                    return const(r if op == 'is' else not r)
                if x.op in NOTNONE:
                    return const(op == 'is not')
        if a is b:
            return const(op == 'is')
        if a.op == b.op == 'class' or \
                {a.op, b.op} <= {'class', 'const', 'func'}:
            return const(op == 'is not')
    if is_const(a) and is_const(b):
        x, y = a.args[0], b.args[0]
        try:
            r = {'==': lambda: x == y, '!=': lambda: x != y,
                 '<': lambda: x < y, '<=': lambda: x <= y,
                 '>': lambda: x > y, '>=': lambda: x >= y,
                 'in': lambda: x in y, 'not in': lambda: x not in y}.get(op)
            if r:
                return const(bool(r()))
        except Exception:
            pass
    return t


def _terms_of(n):
    for k in TERMKEYS:
        v = n.d.get(k)
        if isinstance(v, (Term, tuple)):
            yield v


def loops_of(g):
    """loop head -> node ids of the loop body (natural loop of back edges)"""
    out = {}
    for n in g.nodes:
        if n.kind != 'loop':
            continue
        body = {n.id}
        st = [p for p, l in n.pred if p >= n.id]
        while st:
            x = st.pop()
            if x in body or x < n.id:
                continue
            body.add(x)
            st.extend(p for p, l in g.nodes[x].pred)
        out[n.id] = body
    return out


def refine(g, resolve=('yield', 'return', 'exit-return', 'exit-raise'),
           limit=6000, extra=None):
    """resolve: node kinds whose terms should be resolved as well"""
    # terms that matter, with the nodes in which they occur
    where = {}
    cond_where = {}
    for n in g.nodes:
        imp = n.kind == 'branch' or n.kind in resolve or \
            (extra is not None and extra(n))
        if not imp:
            continue
        ts = set()
        for v in ([n.d.get('cond')] if n.kind == 'branch' else _terms_of(n)):
            if v is not None:
                for x in (subterms(v) if isinstance(v, Term) else
                          (y for w in v for y in _sub_any(w))):
                    ts.add(x)
        # phi values may nest further phis / gates
        work = list(ts)
        for x in work:
            if x.op in ('phi', 'loopvar'):
                where.setdefault(x, set()).add(n.id)
            elif x.op == 'ite':
                for c in _conds(x.args[0]):
                    cond_where.setdefault(c, set()).add(n.id)
        if n.kind == 'branch':
            for c in _conds(n.cond):
                cond_where.setdefault(c, set()).add(n.id)
    # values chosen for tracked terms matter where they are chosen
    cyc = _cyclic(g)
    for t in cyc:
        where.pop(t, None)
    changed = True
    while changed:
        changed = False
        for (src, label), d in g.sel.items():
            for t, v in d.items():
                if v is None or t not in where:
                    continue
                for x in subterms(v):
                    if x.op in ('phi', 'loopvar') and x not in cyc:
                        w = where.setdefault(x, set())
                    elif x.op == 'ite':
                        for c in _conds(x.args[0]):
                            w = cond_where.setdefault(c, set())
                            if src not in w:
                                w.add(src)
                                changed = True
                        continue
                    else:
                        continue
                    if src not in w:
                        w.add(src)
                        changed = True
    amb = {t for t, pts in g.sel_points.items() if _ambiguous(pts)}
    # node -> nodes reachable
    reach = _reach_sets(g, set().union(*where.values(), *cond_where.values())
                        if (where or cond_where) else set())
    loops = loops_of(g)

    out = Graph()
    out.entry = 0
    out.loopvars = g.loopvars
    index = {}

    def live(env, nid):
        r = reach[nid]
        return {t: v for t, v in env.items()
                if (where.get(t, set()) | cond_where.get(t, set())) & r}

    def get(nid, env):
        env = live(env, nid)
        key = (nid, frozenset((t, v[0]) for t, v in env.items()))
        p = index.get(key)
        if p is None:
            if len(out.nodes) > limit:
                raise Explosion()
            o = g.nodes[nid]
            s = Simp({t: v[0] for t, v in env.items()}, g.loopvars)
            d = dict(o.d)
            for k in TERMKEYS:
                if isinstance(d.get(k), (Term, tuple)) and k != 'result':
                    d[k] = s(d[k])
            p = Node(len(out.nodes), o.kind, d, o.loc, o.func, o.stack, o.ast)
            d['orig'] = o
            d['env'] = env
            d['simp'] = s
            out.nodes.append(p)
            index[key] = p
            work.append(p)
        return p
    work = []
    get(g.entry, {})
    while work:
        p = work.pop()
        o = p.d['orig']
        s = p.d['simp']
        for dst, label in o.succ:
            env = dict(p.d['env'])
            if o.kind == 'branch' and label in ('T', 'F'):
                want = label == 'T'
                v = s.truth(o.cond)
                if v is not None and v is not want:
                    continue
                if v is None:
                    for c, pol in _facts(o.cond, want):
                        if c in cond_where:
                            env[c] = (pol, o.id)
                        n = mk_not(c) if c.op == 'cmp' else None
                        if n is not None and n in cond_where:
                            env[n] = (not pol, o.id)
            if o.kind in ('call', 'next', 'new', 'property', 'getitem',
                          'yield'):
                # a value computed anew: what was known about the previous
                # one is void
                me = {o.id}
                env = {t: v for t, v in env.items()
                       if not _mentions(t, me) and not (
                           isinstance(v[0], Term) and _mentions(v[0], me))}
            full = dict(env)
            if g.nodes[dst].kind == 'loop' and dst in loops and \
                    o.id in loops[dst]:
                body = loops[dst]
                env = {t: v for t, v in env.items()
                       if v[1] not in body and not _mentions(t, body)}
            # values merged on the way to a loop head are chosen first
            sels = {}
            if label == 'back':
                sels.update(g.sel.get((o.id, 'next'), {}))
            sels.update(g.sel.get((o.id, label), {}))
            late = [t for t in sels if t.op == 'loopvar']
            cur = s
            for t in [t for t in sels if t.op != 'loopvar'] + late:
                v = sels[t]
                if late and t is late[0]:
                    cur = Simp({k: x[0] for k, x in full.items()},
                               g.loopvars)
                if v is None or t not in where or t in amb or \
                        t.op == 'loopvar' and t.args[0] != dst:
                    continue
                env[t] = (cur(v), dst if t.op == 'loopvar' else o.id)
                if t.op != 'loopvar':
                    full[t] = env[t]
            q = get(dst, env)
            out.edge(p.id, q.id, label)
    out.source = g
    out.returns = [n for n in out.nodes if n.kind == 'exit-return']
    return out


class Explosion(Exception):
    pass


def try_refine(g, **kw):
    try:
        return refine(g, **kw)
    except Explosion:
        return g


def _sub_any(w):
    if isinstance(w, Term):
        return subterms(w)
    if isinstance(w, tuple):
        return (y for x in w for y in _sub_any(x))
    return ()


def _conds(c):
    yield c
    if c.op in ('and', 'or', 'not'):
        for x in c.args:
            for y in _conds(x):
                yield y


def _facts(c, pol):
    yield c, pol
    if c.op == 'not':
        for x in _facts(c.args[0], not pol):
            yield x
    if (c.op == 'and' and pol) or (c.op == 'or' and not pol):
        for a in c.args:
            for x in _facts(a, pol):
                yield x


def _copies(t, copy, grow):
    """loop variables whose value is passed on unchanged / computed with"""
    if t.op == 'loopvar':
        copy.add(t)
    elif t.op == 'phi':
        for x in t.args:
            if isinstance(x, Term):
                _copies(x, copy, grow)
    elif t.op == 'ite':
        grow.update(x for x in subterms(t.args[0]) if x.op == 'loopvar')
        for x in t.args[1:]:
            if isinstance(x, Term):
                _copies(x, copy, grow)
    else:
        grow.update(x for x in subterms(t) if x.op == 'loopvar')


def _cyclic(g):
    """loop variables whose next value is computed from itself (or in a
    cycle of loop variables): their choices are not enumerable. Values that
    are only passed on do not count."""
    dep, growing = {}, []
    for lv, (init, vals) in g.loopvars.items():
        copy, grow = set(), set()
        for v in list(vals):
            if isinstance(v, Term) and v is not lv:
                _copies(v, copy, grow)
        dep[lv] = copy | grow
        growing.extend((lv, x) for x in grow)

    def reach(x):
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y not in seen:
                seen.add(y)
                st.extend(dep.get(y, ()))
        return seen
    if not growing:
        return set()
    down = {lv: reach(lv) for lv in dep}
    cyc = set()
    for a, b in growing:
        if a in down.get(b, ()):
            cyc.update(lv for lv in dep if a in down[lv] and
                       lv in down.get(b, ()))
    return cyc


def _ambiguous(pts):
    pts = sorted(pts, key=len)
    big = pts[-1] if pts else frozenset()
    return any(not p <= big for p in pts)


def _mentions(t, body):
    for x in subterms(t):
        if x.op in ('res', 'elem', 'inst', 'comp') and x.args and \
                any(isinstance(a, int) and (a % 1000000) in body
                    for a in x.args[:2]):
            return True
        if x.op == 'loopvar' and x.args[0] in body:
            return True
    return False


def _reach_sets(g, interesting):
    """node -> interesting nodes reachable from it (incl. itself)"""
    n = len(g.nodes)
    out = [set() for _ in range(n)]
    for i in interesting:
        st = [i]
        while st:
            x = st.pop()
            if i in out[x]:
                continue
            out[x].add(i)
            st.extend(p for p, l in g.nodes[x].pred)
    return out
