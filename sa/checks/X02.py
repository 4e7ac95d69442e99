# -*- coding: utf-8 -*-
"""X02 event streams are balanced and properly nested."""
import itertools
from ..terms import T, Term, is_const, cval, subterms
from ..iters import natural, settle
from ..events import (START, END, OTHER, PRIMITIVES, Words, Transform,
                      Unknown, event_yields, event_const, input_loops,
                      sequences, flat_words, match, canon, class_of, base)
from ..affine import linear
from ._util import short, fn_args

TECHNIQUE = ('typestate analysis of the generators of events: the words of '
             'start and end events handed out on every path, under every '
             'valuation of the kind and the class of the input event, are '
             'weighed against the changes of the stacks of open elements; a '
             'linear invariant (depth of output = depth of input + weights '
             'of the stacks) has to exist and the order within every word '
             'has to be that of nesting')
LEVEL_NOTE = ('Streams whose words depend on conditions other than the kind '
              'and class of an event, its attributes, a stack or a flag are '
              'not judged; the number of cells given in the document is '
              'taken to be that of the cells that follow.')
EXPLANATION = '''For every generator of events the words (start, end, whole
sub-stream, push, pop) of its paths are computed from the flow graph. A
producer hands out balanced words. For a transformation each class of models
that it tests and both kinds of events are taken as valuation, and the words
must satisfy one linear invariant; elements that it opens itself are opened
before what they contain and closed before what contains them. The rows of a
table are opened with the first and closed with the last of their cells.'''

MODULES = ('hwp5.xmlmodel', 'hwp5.treeop', 'hwp5.xmlformat', 'hwp5.bintype',
           'hwp5.binmodel', 'hwp5.xmldump_flat')


def run(ctx):
    ctx.rule('X02.balance', 'generators hand out balanced events', 8)
    ctx.rule('X02.nesting', 'elements are closed in the order of nesting', 3)
    ctx.rule('X02.rows', 'rows of tables are opened and closed', 0)
    ctx.rule('X02.exit', 'nothing stays open at the end', 1)
    A = Analysis(ctx)
    A.run()


def is_event_gen(ctx, f):
    g = ctx.graphs.get(f)
    if g is None or not f.is_generator:
        return False
    if event_yields(g):
        return True
    return bool(input_loops(g)) and any(
        n.kind == 'yield' for n in g.nodes) and any(
        n.kind == 'branch' and any(
            x.op == 'class' for x in subterms(n.cond)) for n in g.nodes)


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        self.gens = [f for f in ctx.prog.functions
                     if f.module.name in MODULES and f.parent is None and
                     f.cls is None and is_event_gen(ctx, f)]
        self.status = {}     # f -> 'balanced' / 'open' / 'unknown'
        self.open = set()
        self.helpers = set()

    def run(self):
        ctx = self.ctx
        tr = {}
        for f in self.gens:
            if input_loops(ctx.graphs[f]):
                tr[f] = self.takes_events(f)
                self.helpers |= tr[f]
        for _ in range(4):
            before = set(self.open)
            for f in self.gens:
                if f in tr or f in self.open or f in self.helpers:
                    continue
                ps, unk = self.producer(f, report=False)
                self.status[f] = 'open' if ps else 'balanced'
                if ps:
                    self.open.add(f)
            if before == self.open:
                break
        good = set()
        for f in tr:
            bad = self.transform(f, tr[f])
            if not bad:
                good.add(f)
        for f in self.gens:
            if f in tr or f in self.helpers or f.name in PRIMITIVES and \
                    f.name not in ('tree_events', 'tree_events_multi'):
                continue
            if f in self.open and self.completed(f, good):
                ctx.ok('X02.balance', '%s: completed by its callers'
                       % f.fullname)
                continue
            self.producer(f, report=True)

    def completed(self, f, good):
        """an open generator is completed by every generator that uses it"""
        users = [u for u in self.gens if u is not f and any(
            n.kind == 'mkgen' and n.target is f
            for n in self.ctx.graphs[u].nodes)]
        others = [u for u, g in self.ctx.graphs.items()
                  if u not in self.gens and any(
                      n.kind in ('mkgen', 'call') and n.get('target') is f
                      for n in g.nodes)]
        return users and not others and all(
            u in good or self.status.get(u) == 'balanced' for u in users)

    def takes_events(self, f):
        """helpers that a transformation passes the kind of an event to"""
        out = set()
        work = []
        g = self.ctx.graphs[f]
        for lp, evs in input_loops(g):
            nx = [m for m in g.nodes if m.kind == 'next' and
                  m.loop == lp.id]
            E = T('elem', evs, nx[0].id)
            work.append((g, {E, T('item', E, 0)}))
        while work:
            g, evt = work.pop()
            for n in g.nodes:
                h = n.get('target')
                if n.kind not in ('mkgen', 'call') or h is None or \
                        h in out or h.name in PRIMITIVES or \
                        h not in self.ctx.graphs:
                    continue
                ps = h.params
                got = {T('sym', p) for p, a in zip(ps, n.args)
                       if canon(a) in evt}
                got |= {T('sym', k) for k, a in dict(
                    n.get('kw') or {}).items() if canon(a) in evt}
                if got:
                    out.add(h)
                    work.append((self.ctx.graphs[h], got))
        return out

    # graphs ------------------------------------------------------------------
    def build(self, f, more=(), args=(), full=False):
        inl = {f} | set(more) | self.open

        def inline(fi, w):
            if fi in inl:
                return True
            return not fi.is_generator and fi.name not in PRIMITIVES and \
                fi.module.name in MODULES and fi.cls is None and \
                len(list(fi.node.body)) < 12 and not fi.name.startswith(
                    'get_')
        ps = list(f.params)
        a = f.node.args
        nd = len(a.defaults)
        req = ps[:len(ps) - nd] if nd and not full else ps
        call = ', '.join(req + ['%s=%s' % (k, v) for k, v in args])
        imp = ''.join('from %s import %s\n' % (f.module.name, n)
                      for n in sorted({f.name} | {v for k, v in args}))
        return self.ctx.query(
            '%sdef q(%s):\n    for x in %s(%s):\n        yield x\n'
            % (imp, ', '.join(req), f.name, call), inline=inline)

    def balanced(self, t):
        """the stream is that of a balanced generator, or unknown"""
        if t.op == 'gencall':
            f = t.args[0]
            fi = next((h for h in self.ctx.prog.functions
                       if h.fullname == f or h is f), None)
            return fi is None or fi not in self.open
        return True

    # producers ---------------------------------------------------------------
    def producer(self, f, report):
        ctx = self.ctx
        g = self.build(f)
        probs = []
        stops = {n.id for n in g.nodes if n.kind == 'exit-return'}
        ss = sequences(g, g.entry, stops, lambda t: None)
        W = Words(g, None, lambda t: None)
        unk = 0
        words = []
        for s in ss or ():
            try:
                words.append((W.tokens(s), s))
            except Unknown:
                unk += 1
        for w, s in words:
            probs += self.word_problems(w, g)
            st = self.left_on_stacks(w)
            if st:
                probs += self.drained(g, w, st)
        if report:
            where = '%s in %s' % (f.node.lineno, f.fullname)
            if probs:
                for p in sorted(set(probs))[:1]:
                    ctx.bad('X02.balance', '%s: %s' % (f.name, p),
                            '%s: %s' % (f.name, p), f.fullname)
            else:
                ctx.ok('X02.balance', '%s: %d paths, %d undecided' % (
                    f.fullname, len(words), unk))
            del where
        return probs, unk

    def word_problems(self, w, g, inside=False):
        inner, flat = flat_words(w)
        out = []
        for x in inner:
            out += self.word_problems(x, g, True)
        opened = []
        for i, t in enumerate(flat):
            if t[0] == 'G' and not self.balanced(t[1]):
                return ['the events of %s are not balanced' % short(t[1])]
            if t[0] == 'S':
                opened.append(t[1])
            elif t[0] == 'E':
                if opened and match(opened[-1], t[1]):
                    opened.pop()
                elif self.from_stack(t[1], flat):
                    if opened and not any(self.pushed(o, flat)
                                          for o in opened):
                        out.append('an element is closed within another one')
                elif opened:
                    out.append('%s is closed instead of %s' % (
                        short(t[1], 60), short(opened[-1], 60)))
                    opened.pop()
                else:
                    out.append('an end event of %s without start event'
                               % short(t[1], 60))
            elif t[0] in ('S*', 'E*'):
                pass
        for o in opened:
            if not self.pushed(o, flat):
                out.append('a start event of %s without end event'
                           % short(o, 60))
        return out

    def pushed(self, x, w):
        return any(t[0] == 'push' and (t[2] is x or x in set(subterms(t[2])))
                   for t in w)

    def from_stack(self, x, w):
        return any(t[0] == 'pop' and t[2] in set(subterms(x)) for t in w)

    def left_on_stacks(self, w):
        """stacks that elements are pushed to in a loop of the word"""
        out = set()

        def rec(w):
            inner, flat = flat_words(w)
            for t in flat:
                if t[0] == 'push' and any(
                        u[0] == 'S' and (u[1] is t[2] or
                                         u[1] in set(subterms(t[2])))
                        for u in flat):
                    out.add(base(t[1]))
            for x in inner:
                rec(x)
        rec(w)
        return out

    def drained(self, g, w, stacks):
        """the word ends with a loop that closes all elements of a stack"""
        out = []
        for s in stacks:
            ok = False
            for t in reversed(w):
                if t[0] != 'loop':
                    if t[0] in ('S', 'E'):
                        break
                    continue
                ws = t[2]
                if all(any(u[0] == 'pop' and base(u[1]) == s for u in x)
                       and any(u[0] == 'E' for u in x) and
                       not any(u[0] == 'S' for u in x) for x in ws):
                    ok = self.until_empty(g, t[1], s)
                break
            if not ok:
                out.append('elements stay open at the end')
        return out

    def until_empty(self, g, h, s):
        """the loop goes on while there are elements on the stack beyond
        those it started with"""
        for i in natural(g, h):
            n = g.nodes[i]
            if n.kind == 'branch' and n.get('cond') is not None and \
                    any(y not in natural(g, h) for y, l in n.succ):
                c = n.cond
                if c.op == 'cmp':
                    op, a, b = c.args
                    if op in ('<', '<='):
                        op, a, b = {'<': '>', '<=': '>='}[op], b, a
                    fn, x = fn_args(a)
                    if fn is not None and fn.op == 'ext' and \
                            fn.args[0] == 'builtins.len' and is_const(b):
                        k = cval(b) + (op == '>')
                        init = self.initial(x[0])
                        return init is None or k == init + 1
                return True
        return True

    def initial(self, t):
        while t.op == 'loopvar':
            t = t.args[2]
        if t.op == 'container':
            t = t.args[1]
        if t.op == 'list':
            return len(t.args)
        return None

    # transformations ---------------------------------------------------------
    def variants(self, f):
        """class arguments that the transformation is used with"""
        out = [()]
        for u, g in self.ctx.graphs.items():
            for n in g.nodes:
                if n.kind in ('mkgen', 'call') and n.get('target') is f:
                    a = [(p, class_of(x)) for p, x in
                         list(zip(f.params, n.args))[1:]]
                    a += [(k, class_of(x)) for k, x in
                          dict(n.get('kw') or {}).items()]
                    a = tuple((p, k.name) for p, k in a if k is not None
                              and k.name in f.module.bindings)
                    if a and a not in out:
                        out.append(a)
        return out

    def transform(self, f, helpers):
        bad = []
        for args in self.variants(f):
            try:
                g = self.build(f, helpers, args)
            except Exception:
                continue
            for lp, evs in input_loops(g)[:1]:
                bad += self.one(f, g, lp, evs)
        return bad

    def one(self, f, g, lp, evs):
        ctx = self.ctx
        t = Transform(ctx, g, lp, evs, f)
        rows, unk = t.rows(self.balanced)
        where = ctx.where(lp)
        bad = []

        def report(rule, key, msg):
            bad.append(key)
            ctx.bad(rule, '%s: %s' % (f.name, key), '%s: %s' % (f.name, msg),
                    where)
        # elements opened and closed by flags kept with the data
        flagged = self.flag_rows(f, g, t, rows, report)
        sol = self.solve(t, rows)
        if sol is None:
            ctx.ok('X02.balance', '%s: undecided' % f.fullname)
            return bad
        weights, failing = sol
        for r, v in failing[:1]:
            if self.foreign(t, r, rows):
                continue
            report('X02.balance', r.label(g), 'the %s event changes the '
                   'depth of the output by %d instead of %d' % (
                       r.label(g), self.value(r, weights), v))
        if not failing:
            ctx.ok('X02.balance', '%s: %d paths, %d undecided' % (
                f.fullname, len(rows), unk))
        self.order(f, g, t, rows, report, flagged)
        self.items(f, g, t, rows, report)
        self.exits(f, g, t, rows, weights, report)
        return bad

    def foreign(self, t, r, rows):
        """the path depends on conditions that are not understood"""
        for c, p in r.seq.conds:
            s = set(subterms(c))
            if c in t.aconds:
                continue
            if any(x.op in ('loopvar', 'container') for x in s):
                continue
            if t.attrs in s and not any(
                    t.attrs in set(subterms(c2)) and c2 not in t.aconds
                    for q in rows if q.cls is r.cls and q.kind != r.kind
                    for c2, p2 in q.seq.conds):
                continue
            return True
        return False

    def vector(self, t, r):
        d = {}
        for k, v in deltas_of(r.w).items():
            d[k] = v
        for lv, v in t.flags(r).items():
            d[('flag', lv)] = v
        return d

    def value(self, r, weights):
        return net_of(r.w) + (1 if r.kind == END else -1) * 0

    def solve(self, t, rows):
        """weights of the stacks for which the depth of the output is an
        invariant; rows that fail under the best weights"""
        if not rows:
            return None
        vec = [(r, self.vector(t, r)) for r in rows]
        keys = sorted({k for r, d in vec for k, v in d.items() if v != 0},
                      key=str)
        if len(keys) > 4:
            return None
        classes = {}
        for r, d in vec:
            classes.setdefault((r.cls, r.attrs), []).append((r, d))
        best = None
        for w in itertools.product((0, 1, -1), repeat=len(keys)):
            ww = dict(zip(keys, w))
            fails = []
            for k, rs in classes.items():
                bestk = None
                for a in (1, 0):
                    fl = []
                    for r, d in rs:
                        want = a * r.din
                        unknown = False
                        for x, v in d.items():
                            if not ww.get(x):
                                continue
                            if v is None:
                                unknown = True
                            else:
                                want += ww[x] * v
                        if not unknown and net_of(r.w) != want:
                            fl.append((r, want))
                    if bestk is None or len(fl) < len(bestk):
                        bestk = fl
                fails += bestk
            if best is None or len(fails) < len(best[1]):
                best = (ww, fails)
        # temporarily closed elements are opened again
        if not best[1]:
            for k, rs in classes.items():
                s = {stars(r.w) for r, d in rs if r.kind == START}
                e = {stars(r.w) for r, d in rs if r.kind == END}
                for x in s:
                    for y in e:
                        if sorted(x) != sorted(
                                (a, -b) for a, b in y):
                            r = [r for r, d in rs if stars(r.w) in (x, y)
                                 and stars(r.w)] or [rs[0][0]]
                            return best[0], [(r[0], 0)]
        return best

    def synthetic(self, t, r, i):
        k = r.w[i]
        if k[0] not in ('S', 'E') or t.item in set(subterms(k[1])) and \
                canon(k[1]) is t.item:
            return False
        return not self.pushed(k[1], r.w) and not self.from_stack(k[1], r.w)

    def flag_rows(self, f, g, t, rows, report):
        """starts and ends under tests of bits of a queue"""
        found = {}
        for r in rows:
            bits = {}
            for c, p in r.seq.conds:
                if c.op == 'bin' and c.args[0] == '&':
                    k = [cval(x) for x in c.args[1:] if is_const(x)]
                    if k and isinstance(k[0], int):
                        bits[k[0]] = p
            if not bits:
                continue
            for b, p in bits.items():
                found.setdefault((r.cls, r.attrs, r.kind, b), {}).setdefault(
                    p, []).append(r)
        out = []
        opens, closes = {}, {}
        for (cls, attrs, kind, b), d in found.items():
            for p, rs in d.items():
                for r in rs:
                    ex = [i for i in range(len(r.w))
                          if self.synthetic(t, r, i) and
                          not self.paired(r.w, i)]
                    for i in ex:
                        tok = r.w[i]
                        inp = [j for j, u in enumerate(r.w)
                               if u[0] in ('S', 'E') and u[1] is t.item]
                        before = not inp or i < inp[0]
                        (opens if tok[0] == 'S' else closes)[
                            (cls, attrs, b)] = (r, before, p, kind)
                    for i in reversed(ex):
                        r.w = r.w[:i] + [('flagged', r.w[i], None)] + \
                            r.w[i + 1:]
        out = [opens, closes]
        if opens or closes:
            where = 'rows'
            co = {k[:2] for k in opens}
            cc = {k[:2] for k in closes}
            if co - cc or cc - co:
                report('X02.rows', where, 'elements are opened but not '
                       'closed' if co - cc else 'elements are closed but '
                       'not opened')
            for k, (r, before, p, kind) in opens.items():
                if kind != START or not before:
                    report('X02.rows', 'order', 'an element is opened after '
                           'what it contains')
            for k, (r, before, p, kind) in closes.items():
                if kind != END or before:
                    report('X02.rows', 'order', 'an element is closed before '
                           'what it contains')
            self.queue(f, g, {(k[2], v[2]) for k, v in opens.items()},
                       {(k[2], v[2]) for k, v in closes.items()}, report)
        return out

    def paired(self, w, i):
        t = w[i]
        if t[0] == 'S':
            return any(u[0] == 'E' and match(t[1], u[1]) for u in w[i + 1:])
        return any(u[0] == 'S' and match(u[1], t[1]) for u in w[:i])

    def queue(self, f, g, opens, closes, report):
        """the marks that are queued for a row of n cells"""
        if len(opens) != 1 or len(closes) != 1:
            return
        (ob, op), (cb, cp) = list(opens)[0], list(closes)[0]
        if not op or not cp:
            return
        for n in g.nodes:
            if n.kind != 'loop' or n.get('iter') is None:
                continue
            body = natural(g, n.id)
            nx = [m for m in g.nodes if m.kind == 'next' and
                  m.loop == n.id]
            if not nx:
                continue
            el = T('elem', n.iter, nx[0].id)
            marks = [m for i in body for m in [g.nodes[i]]
                     if m.kind == 'call' and m.fn.op == 'attr' and
                     m.fn.args[1] in ('append', 'extend') and m.args]
            if not marks or not any(is_const(m.args[0]) and isinstance(
                    cval(m.args[0]), int) for m in marks) or not any(
                    el in set(subterms(x)) for i in body
                    for k in ('cond', 'iter') for x in
                    [g.nodes[i].get(k)] if isinstance(x, Term)):
                continue
            judged = False
            for k in (0, 1, 2, 3, 4, 7):
                ms = self.marks(g, n, el, k)
                if ms is None:
                    continue
                judged = True
                want = [(i == 0, i == k - 1) for i in range(k)]
                got = [(bool(m & ob), bool(m & cb)) for m in ms]
                if got == want:
                    self.ctx.ok('X02.rows', 'row of %d cells' % k)
                else:
                    report('X02.rows', 'marks of %d' % k, 'a row of %d '
                           'cells is opened and closed at %s' % (k, got))
            if judged:
                return

    def marks(self, g, n, el, k):
        def num(t):
            c, d = linear(t)
            v = c
            for x, m in d.items():
                if x is not el:
                    return None
                v += m * k
            return v

        def ev(t):
            if t is el:
                return bool(k)
            if t.op == 'cmp':
                a, b = num(t.args[1]), num(t.args[2])
                if a is None or b is None:
                    return None
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b,
                        '==': a == b, '!=': a != b}.get(t.args[0])
            return None
        return self.run_marks(g, n.id, {n.id}, ev, num, natural(g, n.id))

    def run_marks(self, g, start, stops, ev, num, body, depth=0):
        from ..cases import value
        out = []
        x = start
        for _ in range(200):
            n = g.nodes[x]
            if x in stops and _:
                return out
            succ = [(y, l) for y, l in n.succ if l not in ('exc', 'genexit')]
            if n.kind == 'branch':
                c = value(n.cond, ev)
                if c is None:
                    return None
                succ = [(y, l) for y, l in succ if (l == 'T') == c]
            elif n.kind == 'loop' and x not in stops:
                it = n.get('iter')
                fn, a = fn_args(it) if it is not None else (None, ())
                if fn is None or fn.op != 'ext' or fn.args[0] not in (
                        'builtins.range', 'builtins.xrange') or depth > 2:
                    return None
                a = [num(y) for y in a]
                if None in a:
                    return None
                nx = [m for m in g.nodes if m.kind == 'next' and
                      m.loop == n.id][0]
                once = self.run_marks(
                    g, [y for y, l in nx.succ if l == 'T'][0], {x}, ev, num,
                    body, depth + 1)
                if once is None:
                    return None
                out += once * len(range(*a))
                x = [y for y, l in nx.succ if l == 'F'][0]
                continue
            elif n.kind == 'next':
                succ = [(y, l) for y, l in succ if l == 'T']
            elif n.kind == 'call' and n.fn.op == 'attr' and n.args and \
                    n.fn.args[1] == 'append':
                if not is_const(n.args[0]) or not isinstance(
                        cval(n.args[0]), int):
                    return None
                out.append(cval(n.args[0]))
            elif n.kind == 'call' and n.fn.op == 'attr' and n.args and \
                    n.fn.args[1] == 'extend':
                return None
            if not succ:
                return None
            x = succ[0][0]
        return None

    # order -------------------------------------------------------------------
    def order(self, f, g, t, rows, report, flagged):
        ctx = self.ctx
        n = 0
        for r in rows:
            w = [u for u in r.w if u[0] in ('S', 'E', 'S*', 'E*', 'push',
                                            'pop')]
            opened = []
            closed_in = False
            for u in w:
                if u[0] == 'S':
                    opened.append(u[1])
                    if closed_in and self.pushed(u[1], w) is False and \
                            False:
                        pass
                elif u[0] == 'E':
                    if opened and match(opened[-1], u[1]):
                        opened.pop()
                        continue
                    n += 1
                    if opened:
                        report('X02.nesting', 'close: ' + r.label(g),
                               'on the %s event %s is closed after %s was '
                               'opened' % (r.label(g), short(u[1], 50),
                                           short(opened[-1], 50)))
                        return
                    if self.from_stack(u[1], w):
                        if closed_in:
                            report('X02.nesting', 'outer: ' + r.label(g),
                                   'on the %s event an element is closed '
                                   'after the element that contains it'
                                   % r.label(g))
                            return
                    elif u[1] is t.item:
                        closed_in = True
                elif u[0] == 'E*':
                    n += 1
                    if closed_in or opened:
                        report('X02.nesting', 'outer: ' + r.label(g),
                               'on the %s event elements are closed after '
                               'the element that contains them'
                               % r.label(g))
                        return
                    if u[2] is False and self.stacked(u[1], rows):
                        report('X02.nesting', 'reversed: ' + r.label(g),
                               'on the %s event the elements of a stack are '
                               'closed from the outermost one' % r.label(g))
                        return
                elif u[0] == 'S*':
                    n += 1
                    if u[2] is True and self.stacked(u[1], rows):
                        report('X02.nesting', 'reversed: ' + r.label(g),
                               'on the %s event the elements of a stack are '
                               'opened from the innermost one' % r.label(g))
                        return
                    if r.kind == START and t.item not in opened and any(
                            v[0] == 'S' and v[1] is t.item for v in r.w):
                        report('X02.nesting', 'star: ' + r.label(g),
                               'on the %s event elements are opened before '
                               'the element that contains them' % r.label(g))
                        return
            # an element opened inside of the input's element has to be
            # closed with it
            if r.kind == START and len(opened) > 1 and t.item in opened:
                i = opened.index(t.item)
                later = opened[i + 1:]
                if later and not self.pushed(t.item, w):
                    ends = [q for q in rows if q.cls is r.cls and
                            q.attrs == r.attrs and q.kind == END]
                    if ends and not all(any(
                            u[0] in ('E', 'E*') and u[1] is not t.item
                            for u in q.w) for q in ends):
                        report('X02.nesting', 'inside: ' + r.label(g),
                               'on the %s event %s is opened inside of the '
                               'element but not closed with it' % (
                                   r.label(g), short(later[0], 50)))
                        return
        ctx.ok('X02.nesting', '%s: %d closings' % (f.fullname, n))

    def stacked(self, s, rows):
        return any(u[0] == 'pop' and u[1] is s for r in rows for u in r.w)

    def items(self, f, g, t, rows, report):
        """the item of an end event is that of its start event"""
        for r in rows:
            for i, u in enumerate(r.w):
                if u[0] != 'E' or u[1] is t.item or \
                        self.from_stack(u[1], r.w) or self.paired(r.w, i):
                    continue
                if r.kind != END:
                    report('X02.balance', 'end: ' + r.label(g), 'the %s '
                           'event closes %s' % (r.label(g),
                                                short(u[1], 60)))
                    return
                st = [q for q in rows if q.cls is r.cls and
                      q.attrs == r.attrs and q.kind == START]
                ss = [v[1] for q in st for j, v in enumerate(q.w)
                      if v[0] == 'S' and not self.paired(q.w, j)]
                if ss and not any(match(s, u[1]) for s in ss):
                    report('X02.balance', 'end: ' + r.label(g), '%s is '
                           'opened but %s is closed' % (
                               short(ss[0], 60), short(u[1], 60)))
                    return

    def exits(self, f, g, t, rows, weights, report):
        ctx = self.ctx
        lp = t.lp
        end = [y for n in g.nodes if n.kind == 'next' and n.loop == lp.id
               for y, l in n.succ if l == 'F']
        stops = {n.id for n in g.nodes if n.kind == 'exit-return'}
        W = Words(g, None, lambda c: None)
        fl = {k[1]: v for k, v in weights.items()
              if isinstance(k, tuple) and k[0] == 'flag' and v}
        pre = sequences(g, g.entry, {lp.id}, lambda c: None) or ()
        heads = []
        for s in pre:
            try:
                heads.append([u for u in W.tokens(s)
                              if u[0] in ('S', 'E')])
            except Unknown:
                return
        head = heads[0] if heads else []
        for e in end:
            for s in ([None] if e in stops else
                      sequences(g, e, stops, lambda c: None) or ()):
                try:
                    w = W.tokens(s) if s is not None else []
                except Unknown:
                    continue
                inner, w = flat_words(w)
                opened = [u[1] for u in head if u[0] == 'S']
                bad = None
                pos = [(c, p) for c, p in (s.conds if s else ())]
                flagged = any(truth(c, p, lv) is True for c, p in pos
                              for lv in flags_of(t))
                off = any(truth(c, p, lv) is False for c, p in pos
                          for lv in flags_of(t))
                closed = 0
                for u in w:
                    if u[0] == 'S':
                        opened.append(u[1])
                    elif u[0] == 'E':
                        if opened and match(opened[-1], u[1]):
                            opened.pop()
                        elif self.from_stack(u[1], w):
                            pass
                        elif flagged:
                            closed += 1
                        else:
                            bad = 'an end event of %s without start event' \
                                % short(u[1], 60)
                if opened:
                    bad = 'a start event without end event'
                if fl and flagged and not off and not closed:
                    bad = 'an element stays open at the end'
                if fl and not flagged and not off and not pos:
                    bad = bad or 'an element stays open at the end'
                if bad:
                    report('X02.exit', 'end', bad)
                    return
        ctx.ok('X02.exit', f.fullname)


def flags_of(t):
    return [lv for lv in t.g.loopvars if lv.args[0] == t.lp.id]


def truth(c, p, lv):
    if c is lv:
        return p
    if c.op == 'not':
        return truth(c.args[0], not p, lv)
    if c.op == 'cmp' and lv in c.args[1:] and any(
            is_const(k) and k.args[0] is None for k in c.args[1:]):
        return (c.args[0] in ('is not', '!=')) == p
    return None


def net_of(w):
    inner, flat = flat_words(w)
    return sum({'S': 1, 'E': -1}.get(t[0], 0) for t in flat)


def deltas_of(w):
    d = {}
    for t in w:
        if t[0] in ('push', 'pop'):
            k = base(t[1])
            d[k] = d.get(k, 0) + (1 if t[0] == 'push' else -1)
    return d


def stars(w):
    d = {}
    for t in w:
        if t[0] in ('S*', 'E*'):
            k = str(base(t[1]))
            d[k] = d.get(k, 0) + (1 if t[0] == 'S*' else -1)
    return tuple(sorted((k, v) for k, v in d.items() if v))


M = 'hwp5/xmlmodel.py'
TREE = 'hwp5/treeop.py'
witnesses = [
    ('wrap without end', M, """    for mev in modelevents:
        yield mev
    yield ENDEVENT, wrapper_model
""", """    for mev in modelevents:
        yield mev
        last = mev
    if last[0] is ENDEVENT:
        yield ENDEVENT, wrapper_model
"""),
    ('tree', TREE, """    for k in tree_events_multi(childs):
        yield k
    yield ENDEVENT, rootitem
""", """    yield ENDEVENT, rootitem
    for k in tree_events_multi(childs):
        yield k
        yield ENDEVENT, rootitem
"""),
    ('prefix not drained', TREE, """    while 1 < len(stack):
        yield ENDEVENT, stack.pop()
""", """    if 1 < len(stack):
        yield ENDEVENT, stack.pop()
"""),
    ('prefix drained short', TREE, "    while 1 < len(stack):\n",
     "    while 2 < len(stack):\n"),
    ('section end', M, """    if started:
        yield ENDEVENT, sectiondef
    else:
        for evented_item in starting_buffer:
            yield evented_item
""", """    yield ENDEVENT, sectiondef
"""),
    ('section not closed', M, """    if started:
        yield ENDEVENT, sectiondef
    else:
        for evented""", """    if not started:
        for evented"""),
    ('column not closed', M, """                    if stack and stack[-1][0] is ColumnSet:
                        yield ENDEVENT, stack.pop()
""", """                    if stack and stack[-1][0] is ColumnSet:
                        stack.pop()
"""),
    ('column order', M, """                    if stack and stack[-1][0] is ColumnSet:
                        yield ENDEVENT, stack.pop()

                    columns = (ColumnSet, {}, {})
                    stack.append(columns)
                    yield STARTEVENT, columns
""", """                    columns = (ColumnSet, {}, {})
                    yield STARTEVENT, columns
                    if stack and stack[-1][0] is ColumnSet:
                        yield ENDEVENT, stack.pop()
                    stack.append(columns)
"""),
    ('column twice', M, """                if model != stack[-1][0]:
                    assert stack[-1][0] is ColumnSet
                    yield ENDEVENT, stack.pop()
                stack.pop()
""", """                if model != stack[-1][0]:
                    assert stack[-1][0] is ColumnSet
                    yield ENDEVENT, stack.pop()
                else:
                    stack.pop()
"""),
    ('listheader end', M, """            if event is STARTEVENT:
                stack.append((level, item))
                yield event, item
            else:
                pass
        else:
            yield event, item

        if""", """            if event is STARTEVENT:
                stack.append((level, item))
            yield event, item
        else:
            yield event, item

        if"""),
    ('listheader late', M, """            lh_level, lh_item = stack.pop()
            yield ENDEVENT, lh_item

        if issubclass(model, parentmodel):
            if event is STARTEVENT:
                stack.append((level, item))
                yield event, item
            else:
                pass
        else:
            yield event, item

""", """            lh_level, lh_item = stack.pop()
            yield event, item
            yield ENDEVENT, lh_item
        elif issubclass(model, parentmodel):
            if event is STARTEVENT:
                stack.append((level, item))
                yield event, item
            else:
                pass
        else:
            yield event, item

"""),
    ('field open', M, """        # fields still not closed; temporarily close them
        for field_item in reversed(stack):
            yield ENDEVENT, field_item
        yield event, item
""", """        yield event, item
"""),
    ('field order', M, "in reversed(stack):\n            yield ENDEVENT, field",
     "in stack:\n            yield ENDEVENT, field"),
    ('field late', M, """        for field_item in reversed(stack):
            yield ENDEVENT, field_item
        yield event, item
""", """        yield event, item
        for field_item in reversed(stack):
            yield ENDEVENT, field_item
"""),
    ('field end kept', M, """            yield event, stack.pop()
        else:
            logger.warning('unmatched field end')
""", """            yield event, stack[-1]
        else:
            logger.warning('unmatched field end')
"""),
    ('field end unmatched', M, "            logger.warning('unmatched field "
     "end')\n", "            yield event, item\n"),
    ('rows of none', M, "            elif cols > 1:\n",
     "            else:\n"),
    ('rows marks', M, "                for i in range(0, cols - 2):\n",
     "                for i in range(1, cols - 2):\n"),
    ('row order', M, """        if how & ROW_OPEN:
            yield STARTEVENT, (TableRow, dict(), row_context)
    yield event, item
""", """        if how & ROW_OPEN:
            yield event, item
            yield STARTEVENT, (TableRow, dict(), row_context)
            return
    yield event, item
"""),
    ('row end', M, """        if how & ROW_CLOSE:
            yield ENDEVENT, (TableRow, dict(), row_context)
""", """        if how & ROW_CLOSE:
            pass
"""),
    ('token end', M, """                    yield STARTEVENT, token
                    yield ENDEVENT, token
        else:
            yield event, item
""", """                    yield STARTEVENT, token
                yield ENDEVENT, item
        else:
            yield event, item
"""),
    ('control char end', M, """            yield STARTEVENT, ctrlch
            yield ENDEVENT, ctrlch
""", """            yield STARTEVENT, ctrlch
            if 'char' not in chunk_attributes:
                yield ENDEVENT, ctrlch
"""),
    ('array end', 'hwp5/xmlformat.py', """                    for x in element(context, (_type.itemtype, _itemvalue)):
                        yield x
                yield ENDEVENT, 'Array'
""", """                    for x in element(context, (_type.itemtype, _itemvalue)):
                        yield x
                    yield ENDEVENT, 'Array'
"""),
    ('color end', 'hwp5/xmlformat.py', """                    })
                    yield ENDEVENT, _name
""", """                    })
                yield ENDEVENT, _name
"""),
    ('text char', M, """        else:
            yield STARTEVENT, item
            yield ENDEVENT, item
""", """        else:
            yield STARTEVENT, item
"""),
    ('paragraph', M, """                yield ENDEVENT, (model, attributes, context)
                stack.pop()
""", """                if paratext[1]['chunks']:
                    yield ENDEVENT, (model, attributes, context)
                stack.pop()
"""),
]
benign = [
    ('while', M, """        for field_item in reversed(stack):
            yield ENDEVENT, field_item
        yield event, item
""", """        for field_item in stack[::-1]:
            yield ENDEVENT, field_item
        yield ENDEVENT, item
"""),
    ('split', M, """            for x in mfse_field(event, stack, item):
                yield x
""", """            if event is STARTEVENT:
                yield event, item
                stack.append(item)
"""),
    ('drain', TREE, """    while 1 < len(stack):
        yield ENDEVENT, stack.pop()
""", """    while len(stack) >= 2:
        ended = stack.pop()
        yield ENDEVENT, ended
"""),
    ('wrap', M, """    yield STARTEVENT, wrapper_model
    for mev in modelevents:
        yield mev
    yield ENDEVENT, wrapper_model
""", """    model, attributes, context = wrapper_model
    yield STARTEVENT, wrapper_model
    for event, item in modelevents:
        yield event, item
    yield ENDEVENT, (model, attributes, context)
"""),
    ('columns', M, """                    columns = (ColumnSet, {}, {})
                    stack.append(columns)
                    yield STARTEVENT, columns
""", """                    columns = (ColumnSet, {}, {})
                    yield STARTEVENT, columns
                    stack.append(columns)
"""),
    ('section', M, [("""    started = False
    sectiondef = None
""", """    sectiondef = None
"""), ("        if started:\n            yield event, item\n",
       "        if sectiondef is not None:\n            yield event, item\n"),
                    ("                started = True\n", ""),
                    ("    if started:\n        yield END",
                     "    if sectiondef is not None:\n        yield END")]),
    ('rows', M, """            if cols == 1:
                rowcols.append(ROW_OPEN | ROW_CLOSE)
            elif cols > 1:
                rowcols.append(ROW_OPEN)
                for i in range(0, cols - 2):
                    rowcols.append(0)
                rowcols.append(ROW_CLOSE)
""", """            for i in range(cols):
                mark = 0
                if i == 0:
                    mark |= ROW_OPEN
                if i == cols - 1:
                    mark |= ROW_CLOSE
                rowcols.append(mark)
"""),
    ('listheader', M, """        if issubclass(model, parentmodel):
            if event is STARTEVENT:
                stack.append((level, item))
                yield event, item
            else:
                pass
        else:
            yield event, item

        if event""", """        if not issubclass(model, parentmodel):
            yield event, item
        elif event is STARTEVENT:
            yield event, item
            stack.append((level, item))

        if event"""),
    ('controls', M, """        elif issubclass(model, Control) and event == STARTEVENT:
            control_subtree = build_subtree(event_prefixed_mac)
            paragraph = stack[-1]
            paragraph_controls = paragraph.setdefault(Control, [])
            paragraph_controls.append(control_subtree)
        else:
            yield event, item
""", """        elif event is ENDEVENT or not issubclass(model, Control):
            yield event, item
        else:
            stack[-1].setdefault(Control, []).append(
                build_subtree(event_prefixed_mac))
"""),
]
