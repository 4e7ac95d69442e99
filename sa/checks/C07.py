# -*- coding: utf-8 -*-
"""C07 Every reading loop makes progress or stops."""
import ast

from ..terms import T, Term, is_const, cval, subterms
from ..flow import dominators, dom_chain, facts_at
from ..iters import natural, settle, feasible
from ..kinds import parts, receiver
from ..paths import truth_of
from ..prog import FuncInfo, ClassInfo
from ._util import short

TECHNIQUE = ('iterations of loops as paths of the flow graph; search for '
             'iterations that repeat under an invariant state, also with '
             'exhausted input; arguments of recursive calls')
LEVEL_NOTE = ('an iteration is reported when nothing that its branches test '
              'changes; loops over values of foreign objects count as '
              'progressing.')
EXPLANATION = '''Every loop that is not bounded by a finite collection is taken apart into its
iterations. For each iteration the conditions it passes are evaluated again
with the values of the next round: variables, containers that only shrink or
only grow, positions, and what input gives when it is exhausted. An iteration
whose conditions cannot change runs forever. Recursive calls have to be given
something else than their caller got, or consume input first.'''

REMOVE = {'pop', 'popleft', 'popitem', 'remove', 'clear', 'discard'}
GROW = {'append', 'appendleft', 'add', 'extend', 'insert', 'setdefault',
        'update'}
NEUTRAL = {'get', 'keys', 'items', 'values', 'index', 'count', 'copy',
           'start', 'end', 'group', 'groups', 'startswith', 'endswith',
           'find', 'encode', 'decode', 'join', 'format', 'strip', 'debug',
           'info', 'warning', 'error', 'exception', 'write', 'flush',
           'isEnabledFor'}
READ = {'read', 'readline', 'readBytes', 'readinto', 'read1', 'recv'}
ENDLESS = {'itertools.count', 'itertools.cycle', 'itertools.repeat'}
MATCH = {'search', 'match', 'fullmatch', 'start', 'end', 'span'}
REPEAT = {T('ext', 'builtins.' + x) for x in (
    'len', 'chr', 'ord', 'isinstance', 'min', 'max', 'int', 'str', 'bool')}
EMPTY = T('const', b'')


def lowered(x):
    """the value that x is at most"""
    while x.op == 'bin' and is_const(x.args[2]) and \
            isinstance(cval(x.args[2]), int) and (
                x.args[0] in ('&', '>>') or
                x.args[0] == '-' and cval(x.args[2]) >= 0 or
                x.args[0] == '+' and cval(x.args[2]) <= 0 or
                x.args[0] in ('//', '%') and cval(x.args[2]) >= 1):
        x = x.args[1]
    return x


def run(ctx):
    ctx.rule('C07.loops', 'no iteration of a loop repeats without progress',
             8)
    ctx.rule('C07.endless', 'iterations over endless or growing collections '
             'are left', 0)
    ctx.rule('C07.recursion', 'recursive calls descend or consume input', 3)
    out = Exhausted(ctx)
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        for n in g.nodes:
            if n.kind != 'loop':
                continue
            if n.get('iter') is None:
                Loop(ctx, f, g, n, out).judge()
            else:
                collection(ctx, f, g, n)
    recursion(ctx)


class Exhausted:
    """what calls give when the input is exhausted: a set of 'raise', 'None',
    'empty' or None for something else"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def of_call(self, n):
        """outcome of a call node, or None when it reads nothing"""
        if n.kind != 'call':
            return None
        fn = n.fn
        if fn.op == 'ext' and fn.args[0] in ('builtins.next',):
            return 'raise' if len(n.args) == 1 else \
                ('value', n.args[1])
        o, m = receiver(fn)
        t = n.get('target')
        if isinstance(t, FuncInfo):
            return self.of_func(t)
        if m == 'read' and (o.op in ('class', 'gval') or o.op == 'inst' and
                            not o.args[1:]):
            return 'raise'       # values of declared types
        if m in READ:
            return 'empty'
        if m in ('next', '__next__') and fn.op == 'attr':
            return 'raise'
        return None

    def caught(self, g, n):
        """handlers of what reading exhausted input raises"""
        stop = n.fn is T('ext', 'builtins.next') or \
            receiver(n.fn)[1] in ('next', '__next__')
        names = {'StopIteration'} if stop else self.eof()
        out = set()
        for y, l in n.succ:
            h = g.nodes[y]
            if l == 'exc' and h.kind == 'handler':
                ts = {s.args[0].rpartition('.')[2] if s.op == 'ext' else
                      getattr(s.args[0], 'name', '')
                      for t in h.get('types') or () if isinstance(t, Term)
                      for s in subterms(t) if s.op in ('ext', 'class')}
                if not ts or ts & (names | {'Exception', 'BaseException'}):
                    out.add(y)
        return out

    def eof(self):
        out = {'EOFError'}
        for c in self.ctx.prog.classes:
            if c.name == 'Eof':
                out |= {getattr(x, 'name', None) or
                        str(x[1]).rpartition('.')[2]
                        for x in self.ctx.prog.mro(c)
                        if not isinstance(x, tuple) or x[0] == 'ext'}
        return out - {'object'}

    def of_func(self, f, depth=0):
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = None
        g = self.ctx.graphs.get(f)
        if g is None or f.is_generator:
            return None
        got, read = set(), False
        sizes = {a for n in g.nodes if n.kind == 'call' and
                 receiver(n.fn)[1] in READ for a in n.args
                 if not is_const(a)}
        seen, st = set(), [(g.entry, frozenset())]
        count = 0
        while st:
            x, vals = st.pop()
            if (x, vals) in seen or count > 4000:
                continue
            seen.add((x, vals))
            count += 1
            n = g.nodes[x]
            if n.kind == 'exit-return':
                v = n.get('value')
                v = subst(v, dict(vals)) if v is not None else None
                got.add('None' if v is None or is_const(v) and
                        cval(v) is None else 'other')
                continue
            if n.kind == 'exit-raise':
                got.add('raise')
                continue
            r = self.of_call(n)
            labels = None
            if r == 'raise':
                read = True
                labels = {'exc'}
            elif r is not None and n.get('result') is not None:
                read = True
                v = {'empty': EMPTY, 'None': T('const', None)}.get(r)
                if v is not None:
                    vals = vals | {(n.result, v)}
            want = None
            if n.kind in ('branch', 'assert') and n.get('cond') is not None:
                want = truth(n.cond, dict(vals), sizes)
            caught = self.caught(g, n) if labels else None
            for y, l in n.succ:
                if l == 'genexit':
                    continue
                if labels is not None:
                    if l not in labels or caught and y not in caught:
                        continue
                elif l == 'exc' and n.kind != 'raise':
                    continue
                if want is not None and l in ('T', 'F') and \
                        (l == 'T') != want:
                    continue
                st.append((y, vals))
        r = None
        if read and len(got) == 1 and count <= 4000:
            r = next(iter(got))
            if r == 'other':
                r = None
        self.memo[f] = r
        return r


def subst(t, vals, depth=0):
    """t with terms replaced, and constants folded"""
    if not isinstance(t, Term):
        return t
    if t in vals:
        return vals[t]
    if t.op in ('const', 'sym', 'ext', 'class', 'func', 'inst', 'res') or \
            depth > 30:
        return t
    if t.op == 'loopvar':
        return t

    def arg(a):
        if isinstance(a, Term):
            return subst(a, vals, depth + 1)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a
    new = tuple(arg(a) for a in t.args)
    if new != t.args:
        t = T(t.op, *new)
    return fold(t)


def fold(t):
    if t.op == 'pure' and t.args[0] is T('ext', 'builtins.len') and \
            t.args[1] and is_const(t.args[1][0]) and isinstance(
                cval(t.args[1][0]), (bytes, str)):
        return T('const', len(cval(t.args[1][0])))
    if t.op == 'pure' and t.args[0] is T('ext', 'builtins.len') and \
            t.args[1] and t.args[1][0].op in ('list', 'tuple'):
        return T('const', len(t.args[1][0].args))
    if t.op == 'bin' and is_const(t.args[1]) and is_const(t.args[2]):
        a, b = cval(t.args[1]), cval(t.args[2])
        try:
            if t.args[0] == '+':
                return T('const', a + b)
            if t.args[0] == '-':
                return T('const', a - b)
        except TypeError:
            return t
    if t.op == 'bin' and t.args[0] == '+' and t.args[2] is EMPTY:
        return t.args[1]
    if t.op == 'not' and is_const(t.args[0]):
        return T('const', not cval(t.args[0]))
    if t.op == 'ite' and is_const(t.args[0]):
        return t.args[1] if cval(t.args[0]) else t.args[2]
    if t.op == 'cmp' and is_const(t.args[1]) and is_const(t.args[2]):
        a, b = cval(t.args[1]), cval(t.args[2])
        try:
            r = {'==': lambda: a == b, '!=': lambda: a != b,
                 '<': lambda: a < b, '<=': lambda: a <= b,
                 '>': lambda: a > b, '>=': lambda: a >= b,
                 'is': lambda: a is b or a == b,
                 'is not': lambda: not (a is b or a == b)}[t.args[0]]()
            return T('const', r)
        except (KeyError, TypeError):
            return t
    return t


def truth(c, vals, sizes=()):
    """truth of a condition under the valuation"""
    c = subst(c, vals)
    if is_const(c):
        return bool(cval(c))
    if c.op == 'cmp' and is_const(c.args[1]) and c.args[2] in sizes and \
            cval(c.args[1]) == 0:
        return {'<': True, '<=': True, '!=': True, '==': False,
                '>=': False, '>': False}.get(c.args[0])
    if c.op == 'cmp' and is_const(c.args[2]) and c.args[1] in sizes and \
            cval(c.args[2]) == 0:
        return {'>': True, '>=': True, '!=': True, '==': False,
                '<=': False, '<': False}.get(c.args[0])
    if c.op == 'not':
        r = truth(c.args[0], {}, sizes)
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [truth(x, {}, sizes) for x in c.args]
        d = c.op == 'or'
        if d in rs:
            return d
        return (not d) if all(r is (not d) for r in rs) else None
    return truth_of(c)


def container(t):
    """the object behind a loop variable that is only mutated"""
    for _ in range(20):
        if t.op == 'loopvar':
            i = t.args[2]
            if isinstance(i, Term) and (
                    i.op in ('container', 'list', 'dict', 'sym', 'set') or
                    i.op == 'loopvar' or i.op in ('res', 'pure')):
                t = i
                continue
        return t
    return t


class Loop:
    def __init__(self, ctx, f, g, n, out):
        self.ctx, self.f, self.g, self.h, self.out = ctx, f, g, n.id, out
        self.n = n
        self.body = natural(g, n.id)

    def judge(self):
        what = '%s: loop in line order %d' % (
            self.f.fullname, sum(1 for x in self.g.nodes
                                 if x.kind == 'loop' and x.id < self.h))
        ps = self.iterations()
        if ps is None:
            return
        bad = None
        for p in ps:
            if self.stuck(p):
                bad = p
                break
        if bad is not None:
            lines = []
            for x, l, y in bad:
                ln = self.g.nodes[x].loc.rpartition(':')[2]
                if not lines or lines[-1] != ln:
                    lines.append(ln)
            self.ctx.bad('C07.loops', what, 'the iteration through lines %s '
                         'repeats without progress' % ', '.join(lines[:12]),
                         self.n.loc)
        else:
            self.ctx.ok('C07.loops', what)

    # -- paths of an iteration with exhausted input
    def iterations(self):
        g, h = self.g, self.h
        out = []
        st = [(h, (), frozenset(), {})]
        steps = 0
        while st:
            x, p, seen, vals = st.pop()
            steps += 1
            if steps > 20000:
                return None
            n = g.nodes[x]
            if p and x == h:
                out.append(p)
                continue
            r = self.out.of_call(n)
            labels = None
            sizes = ()
            if r == 'raise':
                labels = {'exc'}
            elif r is not None and n.get('result') is not None:
                vals = dict(vals)
                self.put(vals, n, r)
            want = None
            if n.kind in ('branch', 'assert') and n.get('cond') is not None:
                want = truth(n.cond, vals, self.sizes(p))
                if want is None and n.cond in vals:
                    want = bool(cval(vals[n.cond]))
            if n.kind == 'next':
                # inner iterations over what is left of a consumed input
                pass
            caught = self.out.caught(g, n) if labels else None
            for y, l in n.succ:
                if l == 'genexit' or y not in self.body:
                    continue
                if labels is not None:
                    if l not in labels or caught and y not in caught:
                        continue
                elif l == 'exc':
                    continue
                if want is not None and l in ('T', 'F') and \
                        (l == 'T') != want:
                    continue
                if (x, y) in seen or y in seen and \
                        g.nodes[y].kind not in ('loop', 'next', 'branch'):
                    if y != h:
                        continue
                v2 = vals
                if n.kind == 'branch' and l in ('T', 'F') and \
                        want is None and n.get('cond') is not None:
                    v2 = dict(vals)
                    v2[n.cond] = T('const', l == 'T')
                st.append((y, p + ((x, l, y),), seen | {y, (x, y)}, v2))
        return [p for p in out if feasible(self.g, p)]

    def put(self, vals, n, r):
        o, m = receiver(n.fn)
        if m == 'readBytes':
            vals[T('item', n.result, 0)] = T('const', 0)
            vals[T('item', n.result, 1)] = EMPTY
        elif r == 'empty':
            vals[n.result] = EMPTY
        elif r == 'None':
            vals[n.result] = T('const', None)
        elif isinstance(r, tuple):
            vals[n.result] = r[1]

    def sizes(self, p):
        """sizes that are read are positive"""
        out = set()
        for x, l, y in p:
            n = self.g.nodes[x]
            if n.kind == 'call' and receiver(n.fn)[1] in READ:
                out |= {a for a in n.args if not is_const(a)}
        return out

    # -- whether an iteration repeats
    def stuck(self, p):
        g = self.g
        nodes = [g.nodes[x] for x, l, y in p]
        vals = {}
        fresh = set()      # results of this iteration that may differ
        self.made = {}
        self.touched = {}  # object -> names of methods / effects
        for n in nodes:
            r = self.out.of_call(n)
            if r is not None and n.get('result') is not None and r != 'raise':
                self.put(vals, n, r)
            elif n.kind == 'call' and n.result is not None and n.args and \
                    receiver(n.fn)[1] in ('decode', 'decompress') and \
                    subst(n.args[0], vals) is EMPTY:
                vals[n.result] = EMPTY
            elif n.kind in ('call', 'new', 'mkgen') and \
                    n.get('result') is not None:
                fresh.add(n.result)
                if n.kind == 'call':
                    self.made[n.result] = n
            if n.kind == 'next':
                fresh.add(('elem', n.id))
            if n.kind == 'yield':
                fresh.add(('sent', n.id))
            self.effects(n, r)
        if any(n.kind == 'call' and self.leaves(n) for n in nodes):
            return False
        self.put_back(nodes, fresh)
        self.p, self.fresh, self.vals = p, fresh, vals
        sizes = self.sizes(p)
        nxt = self.next_values(p, vals)
        conds = []
        for x, l, y in p:
            n = g.nodes[x]
            if n.kind in ('branch', 'assert') and \
                    n.get('cond') is not None:
                conds.append((n.cond, l != 'F'))
        for c, pol in conds:
            if not self.stable(c, pol, nxt, sizes):
                return False
        return True

    def put_back(self, nodes, fresh):
        """what is taken from a queue and put back as it was"""
        taken = [n for n in nodes if n.kind == 'call' and
                 receiver(n.fn)[1] in ('popleft', 'pop') and
                 n.get('result') is not None]
        for n in taken:
            o, m = receiver(n.fn)
            if n.args:
                continue
            want = {'popleft': 'appendleft', 'pop': 'append'}[m]
            others = [x for x in nodes if x.kind == 'call' and x is not n and
                      receiver(x.fn)[0] is not None and
                      container(receiver(x.fn)[0]) is container(o) and
                      receiver(x.fn)[1] in GROW | REMOVE]
            if len(others) != 1 or receiver(others[0].fn)[1] != want or \
                    len(others[0].args) != 1:
                continue
            v, r = others[0].args[0], n.result
            if not (v is r or v.op == 'tuple' and all(
                    x is T('item', r, i) for i, x in enumerate(v.args))):
                continue
            ps = [r] + [T('item', r, i) for i in range(4)]
            if any((self.touched.get(container(x)) or set()) - NEUTRAL
                   for x in ps):
                continue
            fresh.discard(r)
            self.touched.pop(container(o), None)

    def leaves(self, n):
        """calls that end the loop by an exception or the process"""
        return n.fn.op == 'ext' and n.fn.args[0] in ('sys.exit', 'os._exit')

    def effects(self, n, r):
        t = self.touched
        if n.kind == 'call':
            o, m = receiver(n.fn)
            if o is not None:
                t.setdefault(container(o), set()).add(m)
            if n.fn.op == 'func' or isinstance(n.get('target'), FuncInfo):
                for h in self.called(n.get('target')):
                    t.setdefault(('function', h), set()).add('call')
            elif n.fn.op not in ('ext', 'attr'):
                t.setdefault(('unknown',), set()).add('call')
            for a in list(n.args) + [v for _, v in n.get('kw') or ()]:
                if m in GROW | NEUTRAL | MATCH or isinstance(
                        n.get('target'), FuncInfo) and pure(
                            self.ctx, n.get('target')):
                    continue
                if n.fn.op == 'ext' and n.fn.args[0].startswith(
                        'builtins.') and n.fn.args[0] != 'builtins.next':
                    continue
                t.setdefault(container(a), set()).add('passed')
        elif n.kind in ('mkgen', 'new'):
            for a in n.get('args') or ():
                t.setdefault(container(a), set()).add('passed')
            h = n.get('target')
            if isinstance(h, FuncInfo):
                t.setdefault(('function', h), set()).add('call')
        elif n.kind in ('setitem', 'setattr', 'delitem', 'delattr'):
            o = n.get('obj')
            if o is not None:
                t.setdefault(container(o), set()).add(n.kind)
        elif n.kind == 'next':
            i = n.get('iter')
            if isinstance(i, Term):
                t.setdefault(container(i), set()).add('next')
                for s in subterms(i):
                    if s.op == 'gencall':
                        t.setdefault(('function', s.args[0]), set()).add(
                            'call')
        elif n.kind == 'yield':
            v = n.get('value')
            if v is not None:
                for s in subterms(v):
                    if s.op == 'gencall' or s.op == 'func':
                        t.setdefault(('function', s.args[0]), set()).add(
                            'call')
                    t.setdefault(container(s), set()).add('yielded')

    def called(self, f):
        return [f] if isinstance(f, FuncInfo) else []

    def next_values(self, p, vals):
        """loop variables of this loop after the iteration"""
        g = self.g
        vals = dict(vals)
        for x, l, y in p:
            n = g.nodes[x]
            if n.kind == 'branch' and l in ('T', 'F') and \
                    n.get('cond') is not None:
                vals.setdefault(n.cond, T('const', l == 'T'))
        x, l, y = p[-1]
        out = {}
        d = g.sel.get((x, l)) or {}
        for lv, (hid, vs) in g.loopvars.items():
            if lv.op != 'loopvar' or lv.args[0] != self.h:
                continue
            v = d.get(lv)
            if v is None and len(set(vs)) == 1:
                v = vs[0]
            if v is None:
                out[lv] = None
                continue
            v = settle(g, p, v)
            out[lv] = subst(v, vals)
        return out

    def stable(self, c, pol, nxt, sizes):
        """whether c certainly has the truth pol again in the next round"""
        c = settle(self.g, self.p, c)
        if c.op == 'not':
            return self.stable(c.args[0], not pol, nxt, sizes)
        if c.op == 'and' and pol or c.op == 'or' and not pol:
            return all(self.stable(x, pol, nxt, sizes) for x in c.args)
        v = dict(self.vals)
        for lv, x in nxt.items():
            if x is not None and (is_const(x) or x is lv):
                v[lv] = x
        r = truth(c, v, sizes)
        if r is not None and not self.mutable(c):
            return r == pol
        if self.growing(c, pol, nxt):
            return True
        return not self.changes(c, nxt)

    def mutable(self, c):
        return any(s.op in ('container', 'list', 'dict') for s in subterms(c))

    def changes(self, c, nxt):
        """whether something the condition depends on may change"""
        st, seen = [c], set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in self.vals:
                continue
            if t in nxt:
                x = nxt[t]
                if x is None or x is not t and not is_const(x) or \
                        is_const(x) and not self.settled(t, x):
                    if not self.same(t, x):
                        return True
            n = self.made.get(t)
            if n is not None and self.repeatable(n):
                st += [n.fn] + list(n.args)
                continue
            if t in self.fresh or t.op in ('sent', 'exc', 'entered') or \
                    t.op in ('elem', 'elemidx') and self.iterated(t):
                return True
            if self.altered(t):
                return True
            if t.op == 'loopvar':
                o = container(t)
                if o is not t:
                    st.append(o)
                continue
            for a in t.args:
                for x in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(x, tuple):
                        st.extend(y for y in x if isinstance(y, Term))
                    elif isinstance(x, Term):
                        st.append(x)
        return False

    def repeatable(self, n):
        """calls that give the same result for the same arguments"""
        h = n.get('target')
        if isinstance(h, FuncInfo):
            return pure(self.ctx, h)
        return n.fn.op == 'attr' and n.fn.args[1] in MATCH | {
            'get', 'index', 'find', 'startswith', 'endswith', 'group'} or \
            n.fn in REPEAT

    def same(self, lv, x):
        """the next value is the same as long as the variable is"""
        if x is None:
            return False
        # position of a match searched from the position itself, or one
        # before it
        x = lowered(x)
        fn, args, kw = parts(x)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'find', 'index') and len(args) == 2 and args[1] is lv:
            return True
        if x.op in ('sub', 'item') and is_const(x.args[1]) and \
                cval(x.args[1]) == 0:
            f2, _, _ = parts(x.args[0])
            if f2 is not None and f2.op == 'attr' and f2.args[1] == 'span':
                fn = T('attr', f2.args[0], 'start')
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'start':
            fn, args, kw = parts(fn.args[0])
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] == 'search' and len(args) > 1 and \
                    args[1] is lv:
                return True
        return False

    def settled(self, lv, x):
        """constants: the second round has the same value again"""
        return True

    def iterated(self, t):
        lp = t.args[1] if t.op == 'elem' and len(t.args) > 1 else \
            t.args[0] if t.op == 'elemidx' else None
        if isinstance(lp, int):
            return ('elem', lp) in self.fresh or lp in self.body
        return any(isinstance(k, tuple) and k[0] == 'elem'
                   for k in self.fresh)

    def altered(self, t):
        ms = self.touched.get(container(t))
        if ms and ms - NEUTRAL - MATCH - {'passed', 'yielded'}:
            return True
        if ms and 'passed' in ms and t.op not in ('const', 'ext', 'class',
                                                  'func'):
            return not immutable(t)
        if ms and 'yielded' in ms and t.op in ('container', 'list', 'dict'):
            return True
        if t.op in ('container', 'list', 'dict', 'set'):
            return self.closures(t, REMOVE | GROW | {'setitem'})
        if t.op == 'attr':
            return ('unknown',) in self.touched or any(
                isinstance(k, tuple) for k in self.touched)
        return False

    def closures(self, t, names):
        """called functions that change a container of this function"""
        for k in self.touched:
            if not isinstance(k, tuple) or k[0] != 'function':
                continue
            h = k[1]
            if not isinstance(h, FuncInfo) or h.parent is None:
                continue
            if mutates(self.ctx, h, names):
                return True
        return False

    def growing(self, c, pol, nxt):
        """conditions on containers that the iteration moves away from"""
        # key in X: only removing makes it false
        if c.op == 'cmp' and c.args[0] in ('in', 'not in'):
            want = (c.args[0] == 'in') == pol
            o = container(c.args[2])
            return self.only(o, GROW | {'setitem'} if want
                             else REMOVE | {'delitem'})
        lv = sized(c, pol)
        if lv is None:
            return False
        t, more, least = lv
        o = container(t)
        x = nxt.get(t)
        if x is not None and x is not t and x.op == 'sub' and \
                x.args[0] is t and x.args[1].op == 'slice':
            lo, hi, step = (list(x.args[1].args) + [None] * 3)[:3]
            return more and nothing(lo) and (
                nothing(hi) or is_const(hi) and isinstance(
                    cval(hi), int) and cval(hi) >= least)
        if x is not None and x is not t:
            return False
        if o.op not in ('container', 'list', 'dict', 'set', 'res', 'pure',
                        'sym'):
            return False
        return self.only(o, GROW | {'setitem'} if more else REMOVE)

    def only(self, o, names):
        ms = set(self.touched.get(o) or ())
        if 'passed' in ms or 'yielded' in ms and not names & GROW or \
                'next' in ms:
            return False
        if ms - NEUTRAL - names - {'yielded'}:
            return False
        other = (REMOVE if names & GROW else GROW | {'setitem'})
        if o.op in ('container', 'list', 'dict', 'set') and \
                self.closures(o, other):
            return False
        return o.op != 'attr'


def nothing(x):
    return x is None or is_const(x) and cval(x) in (None, 0)


def sized(c, pol):
    """(X, True / False, n): the condition says that X has more than / fewer
    than so many elements"""
    def length(t):
        if t.op == 'pure' and t.args[0] is T('ext', 'builtins.len') and \
                len(t.args[1]) == 1:
            return t.args[1][0]
        return None
    if c.op in ('loopvar', 'container', 'sym', 'list'):
        return (c, True, 1) if pol else (c, False, 0)
    if c.op != 'cmp':
        return None
    op, a, b = c.args
    x, y = length(a), length(b)
    if not pol:
        op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=',
              '!=': '=='}.get(op)
    if x is None and y is not None:
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        x, b = y, a
    elif x is None:
        return None
    k = cval(b) if is_const(b) and isinstance(cval(b), int) else 1 << 30
    if op == '>':
        return x, True, k + 1
    if op == '>=':
        return x, True, k
    if op == '!=' and k == 0:
        return x, True, 1
    if op in ('<', '<='):
        return x, False, k
    return None


def pure(ctx, h, busy=None):
    """functions whose result only depends on their arguments"""
    memo = ctx.__dict__.setdefault('_c07_pure', {})
    if h in memo:
        return memo[h]
    busy = busy or set()
    g = ctx.graphs.get(h)
    if g is None or h.is_generator or h in busy:
        return False
    ok = True
    for n in g.nodes:
        if n.kind in ('setitem', 'setattr', 'delitem', 'delattr', 'gstore',
                      'yield', 'mkgen', 'new', 'raise') and \
                n.kind != 'raise':
            ok = False
        if n.kind == 'next' and not subterms(n.iter):
            ok = False
        if n.kind == 'call':
            t = n.get('target')
            o, m = receiver(n.fn)
            ok = ok and (
                isinstance(t, FuncInfo) and pure(ctx, t, busy | {h}) or
                n.fn in REPEAT or n.fn.op == 'ext' and
                n.fn.args[0].startswith('struct.') or
                m in MATCH | (NEUTRAL - {'write', 'flush'}) or
                m == 'decode')
        if not ok:
            break
    memo[h] = ok
    return ok


def immutable(t):
    return t.op in ('const', 'ext', 'class', 'func', 'bin', 'cmp', 'elem',
                    'item')


def mutates(ctx, h, names):
    """whether h may change containers it does not own, by these means"""
    def outer(x):
        while isinstance(x, (ast.Attribute, ast.Subscript)):
            x = x.value
        return isinstance(x, ast.Name) and x.id not in h.local_names
    for x in ast.walk(h.node):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in names \
                    and outer(x.func.value):
                return True
            for a in x.args:
                if isinstance(a, ast.Name) and outer(a) and not (
                        isinstance(x.func, ast.Name) and
                        x.func.id in ('len', 'iter', 'bool', 'list')):
                    return True
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and outer(x):
            if isinstance(x.ctx, ast.Store) and 'setitem' in names or \
                    isinstance(x.ctx, ast.Del) and 'pop' in names:
                return True
    return False


# -- collections that do not end
def collection(ctx, f, g, n):
    it = n.iter
    fn, args, kw = parts(it)
    what = '%s: %s' % (f.fullname, short(it, 60))
    body = natural(g, n.id)
    if fn is not None and fn.op == 'ext' and fn.args[0] in ENDLESS and not (
            fn.args[0].endswith('repeat') and len(args) > 1):
        left = any(y not in body and g.nodes[x].kind != 'next'
                   for x in body for y, l in g.nodes[x].succ
                   if l not in ('genexit',))
        ctx.check(left, 'C07.endless', what, 'is never left', n.loc)
    elif fn is not None and fn is T('ext', 'builtins.iter') and \
            len(args) == 2:
        r = sentinel(ctx, args[0])
        bad = r is not None and is_const(args[1]) and \
            (type(cval(args[1])) is not type(r) or cval(args[1]) != r)
        ctx.check(not bad, 'C07.endless', what, 'exhausted input gives %r, '
                  'which is not the sentinel' % (r,), n.loc)
    else:
        o = container(it)
        if o.op not in ('list', 'container'):
            return
        grown = [m for m in g.nodes if m.id in body and m.kind == 'call' and
                 receiver(m.fn)[1] in GROW and
                 container(receiver(m.fn)[0]) is o]
        idom = dominators(g)[0]
        back = [x for x, l in g.nodes[n.id].pred if x in body]
        always = [m for m in grown if back and all(
            m.id == x or m.id in dom_chain(idom, x) for x in back)]
        ctx.check(not always, 'C07.endless', what,
                  'grows in every iteration over it', n.loc)


def sentinel(ctx, fn):
    """what a function of iter(function, sentinel) gives at the end"""
    h = fn.args[0] if fn.op == 'func' else None
    if isinstance(h, FuncInfo) and h in ctx.graphs:
        for n in ctx.graphs[h].nodes:
            if n.kind == 'exit-return' and n.get('value') is not None:
                f2, a, k = parts(n.value)
                if f2 is not None and receiver(f2)[1] == 'read':
                    return b''
    f2, a, k = parts(fn)
    if f2 is T('ext', 'functools.partial') and a and \
            a[0].op == 'attr' and a[0].args[1] == 'read':
        return b''
    return None


# -- recursion
def recursion(ctx):
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        for n in g.nodes:
            if n.kind not in ('call', 'mkgen') or n.get('target') is not f:
                continue
            args = list(n.get('args') or ())
            o, m = receiver(n.fn) if n.get('fn') is not None else (None, None)
            kw = dict(n.get('kw') or ())
            off = 1 if f.cls is not None and len(args) < len(ps) and \
                ps[:1] in (['self'], ['cls']) and not (
                    args and args[0].op == 'sym' and
                    args[0].args[0] == ps[0]) else 0
            same = bool(ps)
            if off and o is not None and not (
                    o.op == 'inst' and o.args[1:2] == ('self',) or
                    o is T('sym', ps[0])):
                same = False
            for i, p in enumerate(ps[off:]):
                v = args[i] if i < len(args) else kw.get(p)
                if v is None or v is not T('sym', p) and not (
                        v.op == 'inst' and p == 'self'):
                    same = False
            what = '%s: %s' % (f.fullname, short(n.get('result'), 60))
            kept = {p for i, p in enumerate(ps[off:])
                    if (args[i] if i < len(args) else kw.get(p))
                    is T('sym', p)}
            if not same and not guarded_by(g, n.id, kept):
                ctx.ok('C07.recursion', what)
                continue
            # the same arguments: something is consumed first
            ctx.check(consumes(g, n.id, f), 'C07.recursion', what,
                      'calls itself with what decided the call', n.loc)


def guarded_by(g, nid, kept):
    """the call is decided by values that it passes on unchanged only"""
    fs = facts_at(g, nid)
    if not fs or not kept:
        return False
    for c, p, d in fs:
        for s in subterms(c):
            if s.op == 'sym' and s.args[0] not in kept or s.op in (
                    'elem', 'elemidx', 'res', 'loopvar', 'attr', 'inst',
                    'entered', 'sent', 'gval'):
                return False
    for n in g.nodes:
        if n.kind == 'next' and nid in natural(g, n.id) | set():
            return False
    return True


def consumes(g, nid, f):
    """every way to the node passes an element of an iterator, or input"""
    seen, st = set(), [g.entry]
    held = set()         # containers: reading them consumes nothing
    for n in g.nodes:
        if n.kind == 'getitem':
            held.add(n.obj)
        for v in n.d.values():
            if isinstance(v, Term):
                for s in subterms(v):
                    if s.op == 'sub':
                        held.add(s.args[0])
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == nid:
            return False
        n = g.nodes[x]
        if n.kind == 'call':
            o, m = receiver(n.fn)
            if m in READ | REMOVE or n.fn is T('ext', 'builtins.next'):
                continue
        for y, l in n.succ:
            if n.kind == 'next' and l == 'T' and n.iter not in held and any(
                    s.op == 'sym' for s in subterms(n.iter)):
                continue
            if l == 'genexit':
                continue
            st.append(y)
    return True


witnesses = [
    ('search again from the boundary before', 'hwp5/binmodel/controlchar.py',
     'start_idx = i + 1', 'start_idx = i & ~1'),
    ('search again from one before', 'hwp5/binmodel/controlchar.py',
     'start_idx = i + 1', 'start_idx = i - 1'),
    ('cat does not stop at the end', 'hwp5/proc/cat.py',
     """                if data:
                    output_fp.write(data)
                else:
                    return
""", """                if data:
                    output_fp.write(data)
"""),
    ('cat stops at None only', 'hwp5/proc/cat.py',
     "                if data:\n", "                if data is not None:\n"),
    ('records without an end', 'hwp5/recordstream.py',
     """        if record:
            yield record
        else:
            return
""", """        if record:
            yield record
"""),
    ('records skipped at the end of input', 'hwp5/recordstream.py',
     """        if record:
            yield record
        else:
            return
        seqno += 1
""", """        if not record:
            continue
        yield record
        seqno += 1
"""),
    ('decompression never exhausted', 'hwp5/compressed.py',
     "        if len(input) < bufsize:\n",
     "        if len(input) > bufsize:\n"),
    ('decompression forgets the flag', 'hwp5/compressed.py',
     "            exausted = True", "            final = True"),
    ('zlib reader misses the end', 'hwp5/zlib_raw_codec.py',
     "            final = len(c) == 0", "            final = c is None"),
    ('zlib reader forgets the end', 'hwp5/zlib_raw_codec.py',
     """            if final:
                d = self.buffer
                self.buffer = b''
                self.offset += len(d)
                return d

            c""", """            c"""),
    ('zlib reader waits for data', 'hwp5/zlib_raw_codec.py',
     "            if final:\n                d = self.buffer",
     "            if final and self.buffer:\n                d = self.buffer"),
    ('dump of bytes does not advance', 'hwp5/dataio.py',
     "        data = data[16:]", "        data = data[0:]"),
    ('dump advances only with the crust', 'hwp5/dataio.py',
     "        data = data[16:]\n",
     "        if crust:\n            data = data[16:]\n"),
    ('pop_subevents peeks', 'hwp5/bintype.py',
     "event, item = events_deque.popleft()", "event, item = events_deque[0]"),
    ('select_when stays', 'hwp5/bintype.py',
     "select_when = item.pop('select_when')",
     "select_when = item['select_when']"),
    ('stack not popped at the end', 'hwp5/treeop.py',
     """    while 1 < len(stack):
        yield ENDEVENT, stack.pop()
""", """    while 1 < len(stack):
        yield ENDEVENT, stack[-1]
"""),
    ('stack not popped between', 'hwp5/treeop.py',
     "            yield ENDEVENT, stack.pop()\n        while len(stack)",
     "            yield ENDEVENT, stack[-1]\n        while len(stack)"),
    ('missing levels are waited for', 'hwp5/treeop.py',
     """        while len(stack) < level + 1:
            raise Exception('invalid level: %d, %d, %s' %
                            (level, len(stack) - 1, item))
        assert(len(stack) == level + 1)

        stack.append(item)
        yield STARTEVENT, item
""", """        while len(stack) < level + 1:
            logger.warning('invalid level: %d', level)
        assert(len(stack) == level + 1)

        stack.append(item)
        yield STARTEVENT, item
"""),
    ('base64 chunks do not advance', 'hwp5/xmlmodel.py',
     "                        b64 = b64[64:]\n", "                        pass\n"),
    ('base64 rest never cleared', 'hwp5/xmlmodel.py',
     """                        truncated.append(b64)
                        b64 = ''
""", """                        truncated.append(b64)
"""),
    ('columns not popped', 'hwp5/xmlmodel.py',
     """    while stack:
        yield ENDEVENT, stack.pop()
""", """    while stack:
        yield ENDEVENT, stack[-1]
"""),
    ('split and shape keeps a chunk', 'hwp5/xmlmodel.py',
     """            try:
                (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
            except StopIteration:
                return


def line_segmented""", """            try:
                (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
            except StopIteration:
                continue


def line_segmented"""),
    ('control characters found at the same place', 'hwp5/binmodel/controlchar.py',
     "                    start_idx = i + 1\n",
     "                    start_idx = i\n"),
    ('odd matches are skipped without advancing',
     'hwp5/binmodel/controlchar.py',
     "                    start_idx = i + 1\n", ""),
    ('text chunks do not advance', 'hwp5/binmodel/tagid51_para_text.py',
     """                yield (ctrlpos // 2, ctrlpos_end // 2), cch
            idx = ctrlpos_end
""", """                yield (ctrlpos // 2, ctrlpos_end // 2), cch
                idx = ctrlpos_end
"""),
    ('UNO streams read at the end', 'hwp5/plat/_uno/adapters.py',
     "                        if n_read == 0:\n",
     "                        if n_read < 0:\n"),
    ('flags parsed without an end', 'hwp5/dataio.py',
     """                idx, lsb = next(args)
            except StopIteration:
                break
""", """                idx, lsb = next(args)
            except StopIteration:
                continue
"""),
    ('group keeps its top record', 'hwp5/recordstream.py',
     "        yield context.pop('top')", "        yield context['top']"),
    ('filters are not consumed', 'hwp5/utils.py',
     "flt, filters = filters[0], filters[1:]", "flt = filters[0]"),
    ('cat reads with a text sentinel', 'hwp5/proc/cat.py',
     """            while True:
                data = f.read(4096)
                if data:
                    output_fp.write(data)
                else:
                    return
""", """            for data in iter(lambda: f.read(4096), ''):
                output_fp.write(data)
"""),
    ('storage descends into itself', 'hwp5/storage/__init__.py',
     "unpack(item, outpath)", "unpack(stg, outbase)"),
    ('sections buffered while they are read', 'hwp5/xmlmodel.py',
     """        for evented_item in starting_buffer:
            yield evented_item


class ColumnSet""", """        for evented_item in starting_buffer:
            starting_buffer.append(evented_item)
            yield evented_item


class ColumnSet"""),
]
benign = [
    ('header gives an empty record at the end', 'hwp5/recordstream.py',
     """    header = decode_record_header(f)
    if header is None:
        return
""", """    header = decode_record_header(f)
    if header is None:
        return {}
"""),
    ('cat by a condition', 'hwp5/proc/cat.py',
     """            while True:
                data = f.read(4096)
                if data:
                    output_fp.write(data)
                else:
                    return
""", """            data = f.read(4096)
            while data:
                output_fp.write(data)
                data = f.read(4096)
"""),
    ('cat by iter', 'hwp5/proc/cat.py',
     """            while True:
                data = f.read(4096)
                if data:
                    output_fp.write(data)
                else:
                    return
""", """            for data in iter(lambda: f.read(4096), b''):
                output_fp.write(data)
"""),
    ('cat by break', 'hwp5/proc/cat.py',
     """                if data:
                    output_fp.write(data)
                else:
                    return
""", """                if len(data) == 0:
                    break
                output_fp.write(data)
"""),
    ('records counted by itertools', 'hwp5/recordstream.py',
     """    seqno = 0
    while True:
        record = read_record(f, seqno)
        if record:
            yield record
        else:
            return
        seqno += 1
""", """    import itertools
    for seqno in itertools.count():
        record = read_record(f, seqno)
        if not record:
            break
        yield record
"""),
    ('records by a first read', 'hwp5/recordstream.py',
     """    seqno = 0
    while True:
        record = read_record(f, seqno)
        if record:
            yield record
        else:
            return
        seqno += 1
""", """    seqno = 0
    record = read_record(f, seqno)
    while record is not None:
        yield record
        seqno += 1
        record = read_record(f, seqno)
"""),
    ('decompression with break', 'hwp5/compressed.py',
     """    exausted = False
    while not exausted:
        input = source.read(bufsize)
        if len(input) < bufsize:
            exausted = True
        yield dec.decode(input, exausted)
""", """    while True:
        input = source.read(bufsize)
        last = len(input) < bufsize
        yield dec.decode(input, last)
        if last:
            break
"""),
    ('zlib reader with a loop condition', 'hwp5/zlib_raw_codec.py',
     """        final = False
        while True:
            if size <= len(self.buffer):
                d = self.buffer[:size]
                self.buffer = self.buffer[size:]
                self.offset += size
                return d

            if final:
                d = self.buffer
                self.buffer = b''
                self.offset += len(d)
                return d

            c = self.stream.read(8196)
            final = len(c) == 0
            self.buffer += self.decoder.decode(c, final)
""", """        final = False
        while len(self.buffer) < size and not final:
            c = self.stream.read(8196)
            final = not c
            self.buffer += self.decoder.decode(c, final)
        d = self.buffer[:size]
        self.buffer = self.buffer[size:]
        self.offset += len(d)
        return d
"""),
    ('dump of bytes by offsets', 'hwp5/dataio.py',
     """        yield line
        data = data[16:]
        offsbase += 1
""", """        yield line
        del data[:16]
        offsbase += 1
"""),
    ('pop_subevents by truth', 'hwp5/bintype.py',
     """    while len(events_deque) > 0:
        event, item = events_deque.popleft()
        yield event, item
""", """    while events_deque:
        head = events_deque.popleft()
        event, item = head
        yield head
"""),
    ('pop_subevents by exception', 'hwp5/bintype.py',
     """    while len(events_deque) > 0:
        event, item = events_deque.popleft()
        yield event, item
""", """    while True:
        try:
            event, item = events_deque.popleft()
        except IndexError:
            return
        yield event, item
"""),
    ('condition deleted after use', 'hwp5/bintype.py',
     "            condition = item.pop('condition')\n",
     "            condition = item['condition']\n"
     "            del item['condition']\n"),
    ('base64 by a range', 'hwp5/xmlmodel.py',
     """                truncated = []
                while b64:
                    if len(b64) > 64:
                        truncated.append(b64[:64])
                        b64 = b64[64:]
                    else:
                        truncated.append(b64)
                        b64 = ''
""", """                truncated = [b64[i:i + 64]
                             for i in range(0, len(b64), 64)]
"""),
    ('base64 by slices only', 'hwp5/xmlmodel.py',
     """                    if len(b64) > 64:
                        truncated.append(b64[:64])
                        b64 = b64[64:]
                    else:
                        truncated.append(b64)
                        b64 = ''
""", """                    line, b64 = b64[:64], b64[64:]
                    truncated.append(line)
"""),
    ('columns popped by length', 'hwp5/xmlmodel.py',
     """    while stack:
        yield ENDEVENT, stack.pop()
""", """    while len(stack) > 0:
        item = stack.pop()
        yield ENDEVENT, item
"""),
    ('columns reversed', 'hwp5/xmlmodel.py',
     """    while stack:
        yield ENDEVENT, stack.pop()
""", """    for item in reversed(stack):
        yield ENDEVENT, item
"""),
    ('stack popped by a helper', 'hwp5/treeop.py',
     """    while 1 < len(stack):
        yield ENDEVENT, stack.pop()
""", """    def leave():
        return ENDEVENT, stack.pop()

    while 1 < len(stack):
        yield leave()
"""),
    ('stack deleted from', 'hwp5/treeop.py',
     """    while 1 < len(stack):
        yield ENDEVENT, stack.pop()
""", """    while 1 < len(stack):
        yield ENDEVENT, stack[-1]
        del stack[-1]
"""),
    ('split and shape advances by default', 'hwp5/xmlmodel.py',
     """            try:
                (chunk_start, chunk_end), chunk_attr, chunk = next(chunks)
            except StopIteration:
                return


def line_segmented""", """            following = next(chunks, None)
            if following is None:
                return
            (chunk_start, chunk_end), chunk_attr, chunk = following


def line_segmented"""),
    ('control characters searched by finditer',
     'hwp5/binmodel/controlchar.py',
     """                if i & 1 == 1:
                    start_idx = i + 1
                    continue
""", """                if i % 2:
                    start_idx = m.start() + 1
                    continue
"""),
    ('text chunks by the end', 'hwp5/binmodel/tagid51_para_text.py',
     """            ctrlpos, ctrlpos_end = ControlChar.find(bytes, idx)
            if idx < ctrlpos:
                text = decode_utf16le_with_hypua(bytes[idx:ctrlpos])
                yield (idx // 2, ctrlpos // 2), text
""", """            start = idx
            ctrlpos, idx = found = ControlChar.find(bytes, start)
            ctrlpos_end = found[1]
            if start < ctrlpos:
                text = decode_utf16le_with_hypua(bytes[start:ctrlpos])
                yield (start // 2, ctrlpos // 2), text
"""),
    ('UNO streams until nothing comes', 'hwp5/plat/_uno/adapters.py',
     """                    data = b''
                    while True:
                        bytes = uno.ByteSequence(b'')
                        n_read, bytes = stream.readBytes(bytes, 4096)
                        if n_read == 0:
                            return data
                        data += bytes.value
""", """                    data = b''
                    n_read = 1
                    while n_read > 0:
                        bytes = uno.ByteSequence(b'')
                        n_read, bytes = stream.readBytes(bytes, 4096)
                        data += bytes.value
                    return data
"""),
    ('filters by index', 'hwp5/utils.py',
     """        flt, filters = filters[0], filters[1:]
        with flt(arg) as ret:
            with cascade_contextmanager_filters(ret, filters) as ret:
""", """        with filters[0](arg) as ret:
            rest = filters[1:]
            with cascade_contextmanager_filters(ret, rest) as ret:
"""),
]
