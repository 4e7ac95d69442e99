# -*- coding: utf-8 -*-
"""Event streams: the sequences of start and end events that generators hand
out on the paths of their flow graphs."""
import itertools
from .terms import T, Term, is_const, cval, subterms, alternatives
from .cases import value
from .iters import natural, settle, decided, learn
from .checks._util import fn_args

START, END = 'STARTEVENT', 'ENDEVENT'
PRIMITIVES = {'build_subtree', 'tree_events', 'tree_events_multi',
              'iter_subevents', 'pop_subevents'}
OTHER = '(other)'


def event_const(t):
    if isinstance(t, Term) and t.op == 'class' and \
            getattr(t.args[0], 'name', None) in (START, END):
        return t.args[0].name
    return None


def canon(t):
    """tuples that are put together again from all of their parts"""
    if t.op == 'tuple' and len(t.args) in (2, 3) and all(
            isinstance(a, Term) for a in t.args):
        args = [canon(a) for a in t.args]
        if all(a.op == 'item' and a.args[1] == i and
               a.args[0] is args[0].args[0] for i, a in enumerate(args)):
            return args[0].args[0]
    return t


def base(t):
    """what identifies a container: a variable of loops, or the value"""
    name = None
    while t.op == 'loopvar':
        name, t = t.args[1], t.args[2]
    return (name, t) if name is not None else t


def event_yields(g):
    return [n for n in g.nodes if n.kind == 'yield' and
            n.get('value') is not None and n.value.op == 'tuple' and
            n.value.args and isinstance(n.value.args[0], Term) and
            event_const(n.value.args[0])]


class Seq:
    """a path with inner loops collapsed"""

    def __init__(self, edges, conds, end):
        self.edges, self.conds, self.end = edges, conds, end


def sequences(g, start, stops, ev, head=None, limit=3000):
    """paths from start to a node of stops; loops on the way are passed as a
    whole (edge label LOOP)"""
    out = []
    st = [(start, (), {}, ())]
    bodies = {}
    while st:
        x, p, known, conds = st.pop()
        if p and x in stops:
            out.append(Seq(p, conds, x))
            if len(out) > limit:
                return None
            continue
        if len(p) > 400:
            return None
        n = g.nodes[x]
        if n.kind == 'loop' and x != head:
            b = bodies.get(x)
            if b is None:
                b = bodies[x] = natural(g, x)
            for i in sorted(b):
                for y, l in g.nodes[i].succ:
                    if y not in b and l not in ('exc', 'genexit'):
                        st.append((y, p + ((x, 'LOOP', i), (i, l, y)), known,
                                   conds))
            continue
        c = want = None
        if n.kind in ('branch', 'assert') and n.get('cond') is not None:
            c = n.cond
            want = value(c, lambda t: decided(t, known, ev))
        for y, l in n.succ:
            if l in ('exc', 'genexit'):
                continue
            kn, cs = known, conds
            if n.kind == 'assert' and c is not None:
                if want is False:
                    continue
                kn = dict(known)
                learn(kn, c, True)
            elif c is not None and l in ('T', 'F'):
                if want is not None and (l == 'T') != want:
                    continue
                if want is None:
                    kn = dict(known)
                    learn(kn, c, l == 'T')
                    cs = conds + ((c, l == 'T'),)
            st.append((y, p + ((x, l, y),), kn, cs))
    return out


class Unknown(Exception):
    pass


class Words:
    """tokens of the paths of a graph under a valuation"""

    def __init__(self, g, E, ev, kind=None, balanced=None):
        self.g, self.E, self.ev = g, E, ev
        self.event = T('item', E, 0) if E is not None else None
        self.item = T('item', E, 1) if E is not None else None
        self.kind = kind          # START / END of the input event
        self.balanced = balanced or (lambda t: True)
        self.loops = {}
        self.evs = None
        self._flushed = None

    def flushed(self):
        """lists whose elements are handed out"""
        if self._flushed is None:
            self._flushed = {
                base(canon(n.value).args[0]) for n in self.g.nodes
                if n.kind == 'yield' and n.get('value') is not None and
                canon(n.value).op == 'elem'}
        return self._flushed

    def which(self, t):
        e = event_const(t)
        if e:
            return e
        if t is self.event:
            return self.kind
        return None

    def tokens(self, seq):
        """list of tokens of a path"""
        g = self.g
        out = []
        loop_from = None
        for x, l, y in seq.edges:
            n = g.nodes[x]
            if l == 'LOOP':
                for t in self.loop(x, n):
                    out.append(t)
                # a path that leaves the loop from inside of its body
                if y != x and g.nodes[y].kind not in ('next', 'branch'):
                    if not self.silent(y, x):
                        raise Unknown('loop left')
                loop_from = y
                continue
            if loop_from == x:
                loop_from = None
                continue
            loop_from = None
            out += self.node(n, seq.edges)
        return out

    def silent(self, y, h):
        return all(self.g.nodes[i].kind != 'yield'
                   for i in natural(self.g, h))

    def node(self, n, edges):
        g = self.g
        if n.kind == 'yield':
            v = n.value
            if v is None:
                raise Unknown('yield')
            v = canon(settle(g, edges, v))
            return [self.emitted(v)]
        if n.kind in ('call', 'mkgen'):
            fn = n.get('fn')
            tg = n.get('target')
            if tg is not None and tg.name == 'build_subtree' and \
                    n.args and n.args[0] is self.evs:
                return [('sub', n.get('result'))]
            if fn is not None and fn.op == 'attr' and \
                    isinstance(fn.args[1], str):
                s, m = settle(g, edges, fn.args[0]), fn.args[1]
                if m in ('append', 'push') and len(n.args) == 1:
                    x = canon(settle(g, edges, n.args[0]))
                    if x is self.E and self.E is not None and self.kind \
                            and base(s) in self.flushed():
                        # kept back and handed out later
                        return [('S' if self.kind == START else 'E',
                                 self.item, ('kept', s))]
                    return [('push', s, x)]
                if m == 'appendleft' and len(n.args) == 1:
                    return [('store', s, canon(n.args[0]))]
                if m == 'pop' and (not n.args or len(n.args) == 1 and
                                   is_const(n.args[0]) and
                                   cval(n.args[0]) == -1):
                    return [('pop', s, n.get('result'))]
                if m in ('pop', 'popleft') and len(n.args) <= 1:
                    return [('take', s, n.get('result'))]
                if m in ('setdefault',):
                    return []
        if n.kind == 'setitem':
            return [('store', n.obj, n.get('value'))]
        return []

    def emitted(self, v):
        if v is self.E:
            if self.kind is None:
                raise Unknown('event')
            return ('S' if self.kind == START else 'E', self.item, None)
        if v.op == 'tuple' and len(v.args) == 2:
            e = self.which(v.args[0])
            x = canon(v.args[1])
            if e:
                return ('S' if e == START else 'E', x, None)
            if is_const(v.args[0]) and v.args[0].args[0] is None or \
                    v.args[0].op == 'class':
                return ('N', x, None)
            if v.args[0].op == 'sym':
                raise Unknown('event of %s' % v)
        fn, a = fn_args(v)
        if fn is not None and fn.op == 'ext' and fn.args[0] == \
                'builtins.next' and a:
            return ('G', a[0], 'next')
        if v.op == 'elem':
            return ('G', v.args[0], None)
        raise Unknown('yield %s' % v)

    def loop(self, h, n):
        """tokens that stand for a whole loop"""
        if h in self.loops:
            r = self.loops[h]
            if isinstance(r, Unknown):
                raise r
            return r
        self.loops[h] = Unknown('recursive')
        try:
            r = self.loop_(h, n)
        except Unknown as e:
            self.loops[h] = e
            raise
        self.loops[h] = r
        return r

    def loop_(self, h, n):
        g = self.g
        body = natural(g, h)
        ss = sequences(g, h, {h}, self.ev, head=h)
        if ss is None:
            raise Unknown('paths')
        words = []
        for s in ss:
            if any(x not in body for x, l, y in s.edges):
                continue
            w = self.tokens(s)
            if w not in words:
                words.append(w)
        loud = [w for w in words if w]
        if not loud:
            return []
        it = n.get('iter')
        if all(len(w) == 1 and w[0][0] in ('S', 'E') for w in loud) and \
                len({w[0][0] for w in loud}) == 1 and it is not None:
            k, x, _ = loud[0][0]
            if x.op == 'elem' or any(t.op == 'elem' for t in subterms(x)):
                rev = False
                fn, a = fn_args(it)
                if fn is not None and fn.op == 'ext' and fn.args[0] == \
                        'builtins.reversed':
                    rev, it = True, a[0]
                elif it.op == 'sub' and it.args[1].op == 'slice' and \
                        is_const(it.args[1].args[2]) and \
                        cval(it.args[1].args[2]) == -1:
                    rev, it = True, it.args[0]
                return [(k + '*', it, rev)]
        if all(all(t[0] in ('G', 'N') for t in w) for w in loud):
            return [t if t[2] != 'next' else t for w in loud for t in w]
        return [('loop', h, tuple(tuple(w) for w in loud))]


def flat_words(w):
    """the words of the loops inside of a word, and the word without them"""
    inner, out = [], []
    for t in w:
        if t[0] == 'loop':
            inner += [list(x) for x in t[2]]
        else:
            out.append(t)
    return inner, out


def net(w):
    return sum({'S': 1, 'E': -1}.get(t[0], 0) for t in w)


def deltas(w):
    d = {}
    for t in w:
        if t[0] in ('push', 'pop'):
            k = t[1]
            d[k] = d.get(k, 0) + (1 if t[0] == 'push' else -1)
    return d


def name_of(x):
    """the parts of a start item that name its element"""
    out = [x]
    if x.op == 'tuple' and x.args:
        out.append(x.args[0])
    else:
        out.append(T('item', x, 0))
    return out


def match(open_, closed):
    return closed is open_ or any(closed is y for y in name_of(open_)) or \
        open_.op == 'tuple' and closed.op == 'tuple' and open_.args and \
        closed.args and open_.args[0] is closed.args[0]


# transformations ------------------------------------------------------------
class Row:
    """one path of one iteration under a valuation"""

    def __init__(self, cls, attrs, kind, w, seq):
        self.cls, self.attrs, self.kind, self.w, self.seq = \
            cls, attrs, kind, w, seq
        self.din = (1 if kind == START else -1) - \
            sum(1 for t in w if t[0] == 'sub')

    def label(self, g):
        out = []
        for x, l, y in self.seq.edges:
            n = g.nodes[x]
            if n.kind == 'branch' and l in ('T', 'F'):
                out.append('%s%s' % ('' if l == 'T' else 'not ',
                                     n.loc.split(':')[-1]))
        c = self.cls if isinstance(self.cls, str) else self.cls.name
        return '%s of %s' % (self.kind, c)


def class_of(t):
    if t.op == 'class' and hasattr(t.args[0], 'name'):
        return t.args[0]
    return None


class Transform:
    """the main loop of a generator that turns events into events"""

    def __init__(self, ctx, g, loop, evs, fi):
        self.ctx, self.g, self.lp, self.fi, self.evs = ctx, g, loop, fi, evs
        nx = [n for n in g.nodes if n.kind == 'next' and n.loop == loop.id]
        self.E = T('elem', evs, nx[0].id)
        self.event = T('item', self.E, 0)
        self.item = T('item', self.E, 1)
        self.model = T('item', self.item, 0)
        self.attrs = T('item', self.item, 1)
        self.atoms()

    def atoms(self):
        self.classes = []
        self.aconds = []
        body = natural(self.g, self.lp.id)
        for i in sorted(body):
            n = self.g.nodes[i]
            if n.kind not in ('branch', 'assert') or n.get('cond') is None:
                continue
            for c in atoms_of(n.cond):
                for t in subterms(c):
                    k = class_of(t) if isinstance(t, Term) else None
                    if k is not None and event_const(t) is None and \
                            k not in self.classes and \
                            self.model in set(subterms(c)):
                        self.classes.append(k)
                s = set(subterms(c))
                if self.attrs in s and not any(
                        x.op in ('loopvar', 'container', 'res')
                        for x in s if isinstance(x, Term)) and \
                        c not in self.aconds:
                    self.aconds.append(c)

    def valuation(self, cls, kind, attrs):
        sub = self.ctx.prog.is_subclass

        def classes(t):
            if t.op in ('tuple', 'list', 'set'):
                return [k for a in t.args for k in classes(a)]
            k = class_of(t)
            return [k] if k is not None else [None]

        def ev(t):
            if t in attrs:
                return attrs[t]
            if t.op == 'cmp':
                op, a, b = t.args
                for u, v in ((a, b), (b, a)):
                    if u is self.event and op in ('is', '==', 'is not',
                                                  '!='):
                        e = event_const(v)
                        if e or is_const(v):
                            return (e == kind) == (op in ('is', '=='))
                    if u is self.model and op in ('is', '==', 'is not',
                                                  '!='):
                        k = class_of(v)
                        if k is not None:
                            return (k is cls) == (op in ('is', '=='))
                if op in ('in', 'not in') and a in (self.event, self.model) \
                        and b.op in ('tuple', 'list', 'set'):
                    vs = [event_const(x) if a is self.event else class_of(x)
                          for x in b.args]
                    if None in vs and not all(
                            is_const(x) for x in b.args
                            if event_const(x) is None and
                            class_of(x) is None):
                        return None
                    r = (kind if a is self.event else cls) in vs
                    return r == (op == 'in')
            fn, a = fn_args(t)
            if fn is not None and fn.op == 'ext' and len(a) == 2 and \
                    fn.args[0] == 'builtins.issubclass' and \
                    a[0] is self.model:
                ks = classes(a[1])
                if None in ks:
                    return None
                if cls == OTHER:
                    return False
                return any(cls is k or sub(cls, k) for k in ks)
            return None
        return ev

    def rows(self, balanced):
        """(rows, number of undecided paths)"""
        g = self.g
        out, unk = [], 0
        ac = self.aconds if len(self.aconds) <= 4 else []
        body = natural(g, self.lp.id)
        for cls in self.classes + [OTHER]:
            # conditions on attributes matter only where they are tested
            for bits in itertools.product((True, False), repeat=len(ac)):
                attrs = dict(zip(ac, bits))
                for kind in (START, END):
                    ev = self.valuation(cls, kind, attrs)
                    ss = sequences(g, self.lp.id, {self.lp.id}, ev,
                                   head=self.lp.id)
                    if ss is None:
                        unk += 1
                        continue
                    W = Words(g, self.E, ev, kind, balanced)
                    W.evs = self.evs
                    for s in ss:
                        if any(x not in body for x, l, y in s.edges):
                            continue
                        try:
                            w = W.tokens(s)
                            self.check_known(w, balanced)
                        except Unknown:
                            unk += 1
                            continue
                        out.append(Row(cls, tuple(sorted(
                            (str(k), v) for k, v in attrs.items())), kind,
                            w, s))
        return out, unk

    def check_known(self, w, balanced):
        for t in w:
            if t[0] == 'G' and not balanced(t[1]):
                raise Unknown('stream')

    def flags(self, row):
        """changes of variables that tell whether something is open"""
        d = {}
        x, l, y = row.seq.edges[-1]
        sel = self.g.sel.get((x, l)) or {}
        for lv, (init, vals) in self.g.loopvars.items():
            if lv.args[0] != self.lp.id or init is None or \
                    not is_const(init) or init.args[0] not in (None, False):
                continue
            v = sel.get(lv)
            if v is None and len(set(vals)) == 1:
                v = vals[0]
            if v is None:
                d[lv] = None
                continue
            v = settle(self.g, row.seq.edges, v)
            now = None
            for c, p in row.seq.conds:
                if c is lv:
                    now = 1 if p else 0
                elif c.op == 'not' and c.args[0] is lv:
                    now = 0 if p else 1
                elif c.op == 'cmp' and lv in c.args[1:] and any(
                        is_const(k) and k.args[0] is None
                        for k in c.args[1:]):
                    now = int((c.args[0] in ('is', '==')) != p)
            if v is lv:
                d[lv] = 0
            elif is_const(v) and v.args[0] in (None, False):
                d[lv] = 0 if now == 0 else -1 if now == 1 else None
            elif is_const(v) and v.args[0] is True or v.op in (
                    'tuple', 'item', 'inst'):
                d[lv] = 1 if now == 0 else 0 if now == 1 else None
            else:
                d[lv] = None
        return d


def atoms_of(c):
    if c.op in ('and', 'or', 'not'):
        out = []
        for x in c.args:
            out += atoms_of(x)
        return out
    return [c]


def input_loops(g):
    """(loop, stream) of the loops over streams of events"""
    out = []
    for n in g.nodes:
        if n.kind != 'loop' or n.get('iter') is None or \
                n.iter.op not in ('sym', 'loopvar', 'attr'):
            continue
        nx = [m for m in g.nodes if m.kind == 'next' and m.loop == n.id]
        if not nx:
            continue
        E = T('elem', n.iter, nx[0].id)
        ev = T('item', E, 0)
        for m in g.nodes:
            c = m.get('cond') if m.kind == 'branch' else None
            if c is not None and any(
                    t.op == 'cmp' and ev in t.args[1:] and any(
                        event_const(x) for x in t.args[1:])
                    for t in atoms_of(c)):
                out.append((n, n.iter))
                break
            v = m.get('value') if m.kind == 'yield' else None
            if v is not None and v.op == 'tuple' and v.args and \
                    v.args[0] is ev:
                out.append((n, n.iter))
                break
    return out
