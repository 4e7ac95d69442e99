# -*- coding: utf-8 -*-
"""C08 Standard output carries only the requested data."""
import ast

from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..cases import walk, feasible
from ..flow import dominators, facts_at
from ..prog import FuncInfo, iter_scope
from ._util import short, fn_args, ret_values, norm_facts
from .R10 import commands, is_exit, failing

TECHNIQUE = ('effect analysis: every construct that writes to standard '
             'output, attributed to the commands that reach it through the '
             'call graph, and path analysis of what else the same run '
             'writes there')
LEVEL_NOTE = ('what foreign libraries print by themselves, and the text '
              'argparse prints for help and version, are not judged; the '
              'standard output inherited by a child process is judged for '
              'xmllint, xsltproc, openssl and less.')
EXPLANATION = '''Writes to standard output are found wherever they are: print, pprint,
methods of sys.stdout and of its buffer, and every call or yield that hands
either of them on. Each is attributed to the commands whose call graph closure
contains it. A command that writes its document to a destination it opened, or
that writes bytes, must not print text on a way on which the data is written
too; what is printed as one JSON document is alone. Failing paths print
nothing: whatever leads to a non-zero end goes to the log. The log never goes
to standard output, nothing replaces standard output, child processes that
inherit it are told to be silent, and filters meant for a terminal are applied
only if the output is one.'''

OUT = ('sys.stdout', 'sys.__stdout__')
QUIET = {'xmllint': ('--noout', '--version'),
         'xsltproc': ('-o', '--output', '--noout'),
         'openssl': ('-out',), 'less': ()}
SPAWN = ('subprocess.Popen', 'subprocess.call', 'subprocess.check_call',
         'subprocess.run', 'os.system', 'os.popen')
PASSIVE = ('flush', 'isatty', 'fileno', 'close', 'seekable', 'detach',
           'reconfigure', 'writable', 'readable')
EXCLUDED = ('hwp5.binspec', 'hwp5.plat._uno')


def run(ctx):
    ctx.rule('C08.writers', 'a command that writes data to a destination or '
             'writes bytes prints no text on the same way', 4)
    ctx.rule('C08.json', 'a JSON document is the only thing printed', 1)
    ctx.rule('C08.errors', 'nothing is printed on the way to a failing end',
             4)
    ctx.rule('C08.log', 'the log does not go to standard output', 1)
    ctx.rule('C08.programs', 'programs that inherit standard output are '
             'silent', 2)
    ctx.rule('C08.redirect', 'standard output is not replaced', 1)
    ctx.rule('C08.tty', 'filters for terminals are applied to terminals', 1)
    ctx.rule('C08.destination', 'standard output is the destination only if '
             'no file was given', 1)
    ctx.rule('C08.library', 'functions of the library that give results '
             'print nothing', 1)
    a = Analysis(ctx)
    a.writers()
    a.library()
    a.errors()
    a.log()
    a.programs()
    a.redirect()
    a.tty()
    a.destination()


class Site:
    def __init__(self, n, layer, how):
        self.n, self.layer, self.how = n, layer, how


class Analysis:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.sites = {}
        for f, g in ctx.graphs.items():
            if f.module.name.startswith(EXCLUDED):
                continue
            s = self.sites_of(g)
            if s:
                self.sites[f] = s

    # what standard output is

    def layer(self, t, depth=0):
        """'text', 'binary' or None of a term that may be standard output"""
        if not isinstance(t, Term) or depth > 6:
            return None
        if t.op == 'ext':
            d = t.args[0]
            for o in OUT:
                if d == o:
                    return 'text'
                if d == o + '.buffer' or d.startswith(o + '.buffer.raw'):
                    return 'binary'
            return None
        if t.op == 'gval' and isinstance(t.args[2], Term):
            return self.layer(t.args[2], depth + 1)
        if t.op in ('ite', 'phi'):
            for x in (t.args[1:] if t.op == 'ite' else alternatives(t)):
                r = self.layer(x, depth + 1)
                if r:
                    return r
            return None
        if t.op == 'attr' and t.args[1] in ('buffer', 'raw'):
            return self.layer(t.args[0], depth + 1) and 'binary'
        fn, args = fn_args(t)
        if fn is None:
            return None
        if fn.op == 'func':
            return self.returned(fn.args[0], depth)
        if fn.op == 'ext':
            d = fn.args[0]
            if d == 'builtins.getattr' and len(args) > 1 and \
                    is_const(args[1]):
                if cval(args[1]) == 'buffer' and self.layer(args[0],
                                                            depth + 1):
                    return 'binary'
            if d in ('os.fdopen', 'builtins.open', 'io.open', 'io.FileIO') \
                    and args and (is_const(args[0]) and
                                  cval(args[0]) == 1 and
                                  cval(args[0]) is not True):
                return 'binary'
            if d in ('io.TextIOWrapper', 'io.BufferedWriter') or \
                    d.startswith('codecs.getwriter'):
                for x in args:
                    if self.layer(x, depth + 1):
                        return 'text' if 'Text' in d or 'codecs' in d \
                            else 'binary'
            for o in OUT:
                if d == o + '.detach':
                    return 'binary'
        if fn.op == 'res':
            # codecs.getwriter('utf-8')(stdout)
            f2, _ = fn_args(fn)
            if f2 is not None and f2.op == 'ext' and \
                    f2.args[0] == 'codecs.getwriter':
                for x in args:
                    if self.layer(x, depth + 1):
                        return 'text'
        return None

    def returned(self, f, depth):
        if f in self.memo:
            return self.memo[f]
        self.memo[f] = None
        g = self.ctx.graphs.get(f)
        r = None
        if g is not None and not f.is_generator:
            for _, v in ret_values(g):
                r = r or self.layer(v, depth + 1)
        self.memo[f] = r
        return r

    def site(self, n):
        if n.kind in ('yield', 'return') and n.get('value') is not None:
            if n.kind == 'yield':
                r = self.layer(n.value)
                if r:
                    return Site(n, 'channel', 'yields ' + short(n.value))
            return None
        if n.kind not in ('call', 'new', 'mkgen'):
            return None
        fn = n.get('fn')
        kw = dict(n.get('kw') or ())
        args = list(n.get('args') or ())
        if fn is not None and fn.op == 'ext':
            d = fn.args[0]
            if d == 'builtins.print':
                o = kw.get('file')
                if o is None or is_const(o) and cval(o) is None:
                    return Site(n, 'text', 'print')
                r = self.layer(o)
                return Site(n, r, 'print') if r else None
            if d in ('pprint.pprint', 'pprint.pp'):
                o = kw.get('stream') or (args[1] if len(args) > 1 else None)
                if o is None:
                    return Site(n, 'text', d)
                r = self.layer(o)
                return Site(n, r, d) if r else None
            if d == 'os.write' and args and is_const(args[0]) and \
                    cval(args[0]) == 1:
                return Site(n, 'binary', d)
            for o in OUT:
                if d.startswith(o + '.'):
                    m = d[len(o) + 1:].split('.')
                    if m[-1] in PASSIVE or m[-1] in ('buffer', 'encoding'):
                        return None
                    return Site(n, 'binary' if m[0] == 'buffer' else 'text',
                                d)
            if d in ('builtins.getattr', 'builtins.hasattr',
                     'builtins.isinstance', 'contextlib.closing'):
                return None
            if d.startswith(('logging.', 'contextlib.redirect',
                             'io.TextIOWrapper', 'codecs.', 'builtins.id')):
                return None
            if d in SPAWN:
                return None
        if fn is not None and fn.op == 'attr':
            r = self.layer(fn.args[0])
            if r:
                if fn.args[1] in PASSIVE:
                    return None
                return Site(n, r, short(fn, 40))
        for x in args + list(kw.values()):
            r = self.layer(x)
            if r:
                what = fn if fn is not None else n.get('target')
                if isinstance(what, Term) and what.op == 'ext' and \
                        what.args[0].endswith('partial'):
                    continue
                return Site(n, r, 'handed to ' + (
                    short(what, 40) if isinstance(what, Term)
                    else str(getattr(what, 'fullname', what))))
        return None

    def sites_of(self, g):
        out = []
        for n in g.nodes:
            s = self.site(n)
            if s is not None:
                out.append(s)
        return out

    # the library

    def library(self):
        """a function that hands back results does not print as well"""
        R = 'C08.library'
        n = 0
        for f, g in self.ctx.graphs.items():
            m = f.module.name
            if m.startswith(EXCLUDED) or m.startswith('hwp5.proc') or \
                    m.startswith('hwp5.hwp5') or m in ('hwp5.cli',):
                continue
            if 'main' in f.fullname.split(':')[-1].split('.'):
                continue
            gives = f.is_generator or any(
                isinstance(v, Term) and not (is_const(v) and
                                             cval(v) is None)
                for _, v in ret_values(g))
            if not gives:
                continue
            n += 1
            for s in self.sites.get(f, ()):
                if s.layer == 'channel' or s.n.kind != 'call':
                    continue
                fn = s.n.get('fn')
                d = fn.args[0] if fn is not None and fn.op == 'ext' else ''
                if d == 'builtins.print' or fn is not None and \
                        fn.op == 'attr' and fn.args[1] in (
                            'write', 'writelines') and \
                        self.layer(fn.args[0]):
                    self.ctx.bad(R, f.fullname, '%s gives results and '
                                 'prints (%s)' % (f.name, short(fn, 40)),
                                 self.ctx.where(s.n))
        self.ctx.ok(R, '%d functions' % n)

    # commands

    def leaves(self):
        """commands, with the functions that only they (not the commands they
        dispatch to) run"""
        cmds = commands(self.ctx)
        out = []
        for m in cmds:
            stop = [x for x in cmds if x is not m]
            r = self.ctx.cg.closure([m], stop=set(stop))
            out.append((m, r))
        return out

    def inlined(self, m, reach):
        """graph of a command with everything inlined that leads to a write"""
        holders = [f for f in self.sites if f in reach]
        up = self.ctx.cg.callers(holders)

        def inline(h, w=None):
            return h in up and h in reach or h.module is m.module
        try:
            return self.ctx.graph(m, inline=inline)
        except RecursionError:
            return None

    def writers(self):
        R = 'C08.writers'
        for m, reach in self.leaves():
            holders = {f: s for f, s in self.sites.items() if f in reach}
            kinds = {s.layer for ss in holders.values() for s in ss}
            g = self.inlined(m, reach) if len(kinds) > 1 or \
                'text' in kinds else None
            local = self.sites_of(g) if g is not None else []
            seen = {(s.n.loc, s.layer) for s in local}
            self.json(m, g, local)
            for f, ss in sorted(holders.items(),
                                key=lambda x: x[0].fullname):
                for s in ss:
                    if s.layer != 'text':
                        self.ctx.ok(R, '%s %s' % (m.fullname, f.fullname))
                        continue
                    bad = None
                    if (s.n.loc, s.layer) in seen:
                        bad = self.mixed(
                            g, local, s, len(kinds) > 1)
                    elif f.module is not m.module and (
                            'channel' in kinds or 'binary' in kinds):
                        bad = True
                    self.ctx.check(
                        not bad, R, '%s %s: %s' % (
                            m.fullname, f.fullname, s.how),
                        'text is printed where the command writes its data',
                        self.ctx.where(s.n))
        # code that runs when a module is imported
        for name, mod in sorted(self.ctx.prog.modules.items()):
            if name.startswith(EXCLUDED):
                continue
            for st in mod.tree.body:
                if is_main(st):
                    continue
                for x in top_nodes(st):
                    if isinstance(x, ast.Call) and \
                            self.printing(mod, x):
                        self.ctx.bad(R, '%s (import)' % name, 'prints when '
                                     'it is imported', '%s:%d' % (
                                         mod.path, x.lineno))

    def printing(self, mod, call):
        t = ast.unparse(call.func)
        if t == 'print' and not any(k.arg == 'file' for k in call.keywords):
            return True
        return t.startswith(('sys.stdout.write', 'sys.stdout.buffer.write'))

    def mixed(self, g, local, s, hidden):
        """a path through the text write and through a write of data"""
        here = [x.n.id for x in local
                if x.n.loc == s.n.loc and x.layer == 'text']
        data = [x.n.id for x in local if x.layer in ('binary', 'channel')]
        if not data:
            # the destination is written elsewhere in the closure
            return hidden
        flush = [n.id for n in g.nodes if n.kind == 'call' and
                 n.fn.op in ('ext', 'attr') and
                 short(n.fn, 200).endswith('stdout.flush')]
        for h in here:
            for starts, targets in (([h], data), (data, [h])):
                for x in starts:
                    if not feasible(g, [0], [x]):
                        continue
                    if self.follow(g, x, targets, flush):
                        return True
        return False

    def follow(self, g, x, targets, flush):
        return feasible(g, [y for y, l in g.nodes[x].succ
                            if l not in ('exc', 'genexit')],
                        targets, via=flush) and \
            self.compatible(g, x, targets)

    def compatible(self, g, x, targets):
        """the conditions that lead to the two do not contradict"""
        dom = dominators(g)
        fa = dict(norm(facts_at(g, x, dom)))
        for t in targets:
            fb = norm(facts_at(g, t, dom))
            if all(fa.get(c, p) == p for c, p in fb):
                return True
        return False

    def json(self, m, g, local):
        R = 'C08.json'
        if g is None:
            return
        docs = [s for s in local if self.document(s)]
        text = [s for s in local if s.layer == 'text' and s not in docs]
        made = {f for f, ss in self.sites.items()
                if any(self.document(s) for s in ss)}
        for n in g.nodes:
            # the function that prints the document is chosen here
            if n.kind == 'return' and isinstance(n.get('value'), Term) and \
                    n.value.op == 'func' and n.value.args[0] in made:
                docs.append(Site(n, 'text', n.value.args[0].fullname))
        for d in docs:
            others = [s for s in text if (
                          self.follow(g, d.n.id, [s.n.id], ()) or
                          self.follow(g, s.n.id, [d.n.id], ()))]
            self.ctx.check(not others, R, '%s %s' % (m.fullname, d.how),
                           'other text is printed around the JSON document',
                           others and self.ctx.where(others[0].n) or None)

    def document(self, s):
        n = s.n
        fn = n.get('fn')
        if fn is None or n.kind != 'call':
            return False
        if s.how.startswith('handed') and (
                fn.op == 'attr' and fn.args[1] == 'dump' or
                fn.op == 'ext' and fn.args[0] == 'json.dump'):
            return True
        for a in n.get('args') or ():
            for x in subterms(a):
                if x.op == 'gencall' and isinstance(x.args[0], FuncInfo) \
                        and self.brackets(x.args[0]):
                    return True
        return False

    def brackets(self, f):
        g = self.ctx.graphs.get(f)
        return g is not None and any(
            n.kind == 'yield' and any(
                is_const(x) and isinstance(cval(x), str) and
                cval(x).strip() == '[' for x in subterms(n.value))
            for n in g.nodes if n.get('value') is not None)

    # failing ways

    def errors(self):
        R = 'C08.errors'
        reach = set()
        for m, r in self.leaves():
            reach |= r
        for f, ss in sorted(self.sites.items(), key=lambda x: x[0].fullname):
            if f not in reach:
                continue
            g = self.ctx.graphs[f]
            for s in ss:
                if s.layer == 'channel':
                    continue
                bad = self.fails(g, s.n.id) or self.handling(g, s)
                self.ctx.check(not bad, R, '%s %s' % (f.fullname, s.how),
                               bad, self.ctx.where(s.n))

    def fails(self, g, x):
        """every way on ends in a failure"""
        stops = set()
        exits = 0
        for n in g.nodes:
            ex, st = is_exit(n)
            if ex or n.kind == 'raise':
                stops.add(n.id)
        seen = walk(g, [x], lambda c: None, stops=stops)
        for y in seen:
            n = g.nodes[y]
            if y in stops:
                ex, st = is_exit(n)
                if n.kind == 'raise' and not ex:
                    exits += 1
                elif failing(st):
                    exits += 1
                else:
                    return None
            elif n.kind == 'exit-return':
                v = n.get('value')
                if v is not None and is_const(v) and \
                        isinstance(cval(v), int) and \
                        cval(v) not in (0, False) and cval(v) is not True:
                    exits += 1
                else:
                    return None
        return 'printed on the way to a failing end' if exits else None

    def handling(self, g, s):
        """written because something failed, with the failure in the text"""
        for n in g.nodes:
            if n.kind != 'handler' or n.get('exc') is None:
                continue
            e = n.exc
            for v in list(s.n.get('args') or ()):
                if any(x is e for x in subterms(v)):
                    return 'prints a caught failure'
        for v in list(s.n.get('args') or ()):
            for x in subterms(v):
                if x.op in ('caught', 'handled', 'exc'):
                    return 'prints a caught failure'
        return None

    # logging

    def log(self):
        R = 'C08.log'
        for f, g in sorted(self.ctx.graphs.items(),
                           key=lambda x: x[0].fullname):
            for n in g.nodes:
                if n.kind not in ('call', 'new') or n.get('fn') is None or \
                        n.fn.op != 'ext':
                    continue
                d = n.fn.args[0]
                if d not in ('logging.StreamHandler', 'logging.basicConfig',
                             'warnings.showwarning',
                             'traceback.print_exc',
                             'traceback.print_exception',
                             'traceback.print_stack') and \
                        not d.endswith('StreamHandler'):
                    continue
                vals = list(n.get('args') or ()) + [
                    v for _, v in n.get('kw') or ()]
                self.ctx.check(not any(self.layer(v) for v in vals), R,
                               '%s %s' % (f.fullname, d),
                               'the log goes to standard output',
                               self.ctx.where(n))
        for f, g in self.ctx.graphs.items():
            for n in g.nodes:
                if n.kind == 'call' and n.fn.op == 'attr' and n.fn.args[1] \
                        in ('setStream', 'print_usage', 'print_exc') and \
                        any(self.layer(v) for v in n.args):
                    self.ctx.bad(R, '%s %s' % (f.fullname, n.fn.args[1]),
                                 'the log goes to standard output',
                                 self.ctx.where(n))

    # child processes

    def programs(self):
        R = 'C08.programs'
        for f, g in sorted(self.ctx.graphs.items(),
                           key=lambda x: x[0].fullname):
            if f.module.name.startswith(EXCLUDED):
                continue
            for n in g.nodes:
                if n.kind != 'call' or n.fn.op != 'ext' or \
                        n.fn.args[0] not in SPAWN or not n.args:
                    continue
                kw = dict(n.get('kw') or ())
                out = kw.get('stdout')
                if kw.get('capture_output') is not None:
                    continue
                err = kw.get('stderr')
                if err is not None and any(
                        x.op == 'ext' and x.args[0] == 'subprocess.STDOUT'
                        for x in subterms(err)):
                    self.ctx.check(
                        self.dropped(g, n, out), R, '%s stderr' % f.fullname,
                        'messages of the program become part of its data',
                        self.ctx.where(n))
                if out is not None and not (is_const(out) and
                                            cval(out) is None) and \
                        not self.layer(out):
                    self.ctx.ok(R, '%s %s' % (f.fullname, n.fn.args[0]))
                    continue
                words = self.words(f, g, n.args[0])
                bad = [p for p, q in sorted(QUIET.items())
                       if p in words and not any(x in words for x in q)]
                self.ctx.check(not bad, R, '%s %s' % (
                    f.fullname, n.fn.args[0]), 'what %s prints goes to '
                    'standard output' % ', '.join(bad), self.ctx.where(n))

    def dropped(self, g, n, out):
        return out is None or any(
            x.op == 'ext' and x.args[0].endswith('DEVNULL')
            for x in subterms(out)) or not self.read(g, n)

    def read(self, g, n):
        """the output of the process is used for something else than a log"""
        return any(
            m.kind in ('call', 'return', 'yield') and any(
                x.op == 'attr' and x.args[1] == 'stdout' and
                x.args[0] is n.result
                for v in [m.get('fn')] + list(m.get('args') or ()) +
                [m.get('value')] if isinstance(v, Term)
                for x in subterms(v))
            for m in g.nodes)

    def words(self, f, g, t, depth=0):
        """constants that a command line may contain"""
        out = set()
        for x in subterms(t):
            if is_const(x) and isinstance(cval(x), str):
                out.add(cval(x))
                out |= set(cval(x).split())
            elif x.op == 'gval':
                v = x.args[2]
                if isinstance(v, str):
                    out.add(v)
                elif isinstance(v, Term):
                    if is_const(v) and isinstance(cval(v), str):
                        out.add(cval(v))
                    else:
                        out |= self.words(f, g, v, depth + 1) \
                            if depth < 3 else set()
                out |= self.global_words(x.args[0], x.args[1])
            elif x.op == 'attr':
                out |= self.attr_words(f, x.args[1], depth)
            elif x.op in ('sym', 'free'):
                out |= self.param_words(f, x.args[0], depth)
            elif x.op in ('res', 'pure'):
                fn, _ = fn_args(x)
                if fn is not None and fn.op == 'func' and depth < 3:
                    h = fn.args[0]
                    hg = self.ctx.graphs.get(h)
                    for _, v in ret_values(hg) if hg is not None else ():
                        out |= self.words(h, hg, v, depth + 1)
        for n in g.nodes:
            if n.kind == 'call' and n.fn.op == 'attr' and n.fn.args[1] in (
                    'append', 'extend', 'insert', '__iadd__'):
                for a in n.args:
                    for x in subterms(a):
                        if is_const(x) and isinstance(cval(x), str):
                            out.add(cval(x))
        return out

    def global_words(self, module, name):
        m = self.ctx.prog.modules.get(module)
        out = set()
        for st in m.tree.body if m is not None else ():
            if isinstance(st, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in st.targets):
                for x in ast.walk(st.value):
                    if isinstance(x, ast.Constant) and \
                            isinstance(x.value, str):
                        out.add(x.value)
        return out

    def attr_words(self, f, name, depth):
        out = set()
        if depth > 2:
            return out
        for h, g in self.ctx.graphs.items():
            if h.module is not f.module:
                continue
            for n in g.nodes:
                if n.kind == 'setattr' and n.get('attr', n.get('name')) == \
                        name and isinstance(n.get('value'), Term):
                    out |= self.words(h, g, n.value, depth + 1)
        return out

    def param_words(self, f, name, depth):
        out = set()
        h = f
        while h is not None and name not in h.params:
            h = h.parent if isinstance(h.parent, FuncInfo) else None
        if h is None or depth > 2 or name == 'self':
            return out
        i = list(h.params).index(name)
        if h.cls is not None:
            i -= 1
        for u in self.ctx.cg.pred.get(h, ()):
            g = self.ctx.graphs[u]
            for n in g.nodes:
                if n.kind == 'call' and n.get('target') is h:
                    v = dict(n.get('kw') or ()).get(name)
                    if v is None and 0 <= i < len(n.args):
                        v = n.args[i]
                    if v is not None:
                        out |= self.words(u, g, v, depth + 1)
        for st in h.module.tree.body:
            for x in ast.walk(st) if not isinstance(
                    st, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id == h.name:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Constant) and isinstance(
                                y.value, str):
                            out.add(y.value)
        return out

    # replaced standard output

    def redirect(self):
        R = 'C08.redirect'
        done = 0
        for f, g in sorted(self.ctx.graphs.items(),
                           key=lambda x: x[0].fullname):
            if f.module.name.startswith(EXCLUDED):
                continue
            done += 1
            for n in g.nodes:
                bad = None
                if n.kind == 'setattr':
                    o = n.get('obj')
                    nm = n.get('attr', n.get('name'))
                    if o is not None and short(o) in (
                            'sys', "ext('sys')", 'module sys') or \
                            o is not None and o.op == 'ext' and \
                            o.args[0] == 'sys':
                        if nm == 'stdout':
                            bad = 'replaces sys.stdout'
                        if nm == 'stderr' and self.layer(n.value):
                            bad = 'sends errors to standard output'
                elif n.kind == 'call' and n.fn.op == 'ext':
                    d = n.fn.args[0]
                    if d == 'contextlib.redirect_stdout':
                        bad = 'replaces sys.stdout'
                    if d == 'contextlib.redirect_stderr' and any(
                            self.layer(x) for x in n.args):
                        bad = 'sends errors to standard output'
                    if d == 'os.dup2' and len(n.args) > 1:
                        x, y = n.args[:2]
                        if is_const(y) and cval(y) == 1:
                            bad = 'replaces standard output'
                        if is_const(x) and cval(x) == 1 and \
                                is_const(y) and cval(y) == 2:
                            bad = 'sends errors to standard output'
                    if d in ('sys.stdout.close', 'sys.stdout.buffer.close',
                             'sys.stdout.detach'):
                        bad = 'closes standard output'
                if bad:
                    self.ctx.bad(R, f.fullname, bad, self.ctx.where(n))
        self.ctx.ok(R, '%d functions' % done)

    # filters for a terminal

    def terminal(self):
        """functions that make filters for terminals"""
        out = set()
        for f, g in self.ctx.graphs.items():
            for n in g.nodes:
                if n.kind != 'call' or n.fn.op != 'ext':
                    continue
                if n.fn.args[0].startswith('pygments.formatters.Terminal') \
                        or n.fn.args[0].endswith('environ.get') and any(
                            is_const(a) and cval(a) == 'PAGER'
                            for a in n.args):
                    out.add(f)
        # and what gives their results on
        more = True
        while more:
            more = False
            for f, g in self.ctx.graphs.items():
                if f in out:
                    continue
                for _, v in ret_values(g) if not f.is_generator else ():
                    for x in alternatives(v):
                        fn, _ = fn_args(x)
                        if fn is not None and fn.op == 'func' and \
                                fn.args[0] in out:
                            out.add(f)
                            more = True
        return out

    def tty(self):
        R = 'C08.tty'
        term = self.terminal()
        done = set()
        for u, g in sorted(self.ctx.graphs.items(),
                           key=lambda x: x[0].fullname):
            for n in g.nodes:
                if n.kind != 'call' or not isinstance(
                        n.get('target'), FuncInfo):
                    continue
                h = n.target
                for i, a in enumerate(n.args):
                    fns = [fn_args(x)[0] for x in subterms(a)]
                    fs = [x for x in fns if x is not None and
                          x.op == 'func' and x.args[0] in term]
                    if not fs:
                        continue
                    r = self.guarded(h, i)
                    if r is None:
                        continue
                    self.ctx.check(r, R, '%s %s' % (u.fullname, h.fullname),
                                   'a filter for a terminal is applied to '
                                   'any output', self.ctx.where(n))

    def guarded(self, h, i):
        """what is given as i-th argument is only called under isatty()"""
        if (h, i) in self.memo:
            return self.memo[h, i]
        r = self.memo[h, i] = self.guarded_(h, i)
        return r

    def guarded_(self, h, i):
        ps = ['p%d' % k for k in range(len(h.params))]
        if i >= len(ps) or h.cls is not None:
            return None
        text = ('from %s import %s as h_\n'
                'def q(%s):\n'
                '    x = h_(%s)\n'
                '    with x() as f:\n'
                '        f.write(b"")\n' % (
                    h.module.name, h.name, ', '.join(ps),
                    ', '.join('[%s]' % p if k == i else p
                              for k, p in enumerate(ps))))
        try:
            q = self.ctx.query(text, inline=lambda x, w=None:
                               x.module is h.module)
        except Exception:
            return None
        flt = T('sym', ps[i])
        calls = [n for n in q.nodes if n.kind == 'call' and n.fn is flt]
        if not calls:
            return None
        dom = dominators(q)
        for n in calls:
            if not any(p is True and 'isatty' in short(c, 400)
                       for c, p in norm(facts_at(q, n.id, dom))):
                return False
        return True

    # the destination

    def destination(self):
        R = 'C08.destination'
        chan = {f for f, ss in self.sites.items()
                if any(s.layer == 'channel' for s in ss)}
        for f, g in sorted(self.ctx.graphs.items(),
                           key=lambda x: x[0].fullname):
            if f.module.name.startswith(EXCLUDED):
                continue
            own = f in chan and f.params
            gives = [n for n in g.nodes if n.kind == 'return' and
                     n.get('value') is not None and
                     self.funcs(n.value, lambda c: None) & chan]
            if not own and not gives or not f.params:
                continue
            p = T('sym', f.params[0])

            def given(c):
                if c is p:
                    return True
                if c.op == 'cmp' and c.args[1] is p and \
                        is_const(c.args[2]) and cval(c.args[2]) in (
                            None, '', '-'):
                    return c.args[0] in ('is not', '!=')
                return None
            bad = []
            for x in walk(g, [0], given):
                n = g.nodes[x]
                if n.kind == 'return' and n.get('value') is not None and any(
                        self.yields(h, given)
                        for h in self.funcs(n.value, given) & chan):
                    bad.append(n)
                if own and n.kind == 'yield' and n.get('value') is not None \
                        and self.layer(n.value):
                    bad.append(n)
            self.ctx.check(not bad, R, f.fullname, 'writes to standard '
                           'output although a file is given',
                           bad and self.ctx.where(bad[0]) or None)

    def yields(self, h, ev):
        g = self.ctx.graphs[h]
        return any(g.nodes[x].kind == 'yield' and
                   self.layer(g.nodes[x].value)
                   for x in walk(g, [0], ev))

    def funcs(self, v, ev):
        from ..cases import value
        out, st = set(), [v]
        while st:
            x = st.pop()
            if x.op == 'ite':
                k = value(x.args[0], ev)
                st.extend(x.args[1:] if k is None else
                          [x.args[1] if k else x.args[2]])
            elif x.op == 'phi':
                st.extend(alternatives(x))
            elif x.op == 'func':
                out.add(x.args[0])
        return out


def norm(facts):
    out = []
    for f in facts:
        c, p = f[0], f[1]
        while c.op == 'not':
            c, p = c.args[0], not p
        out.append((c, p))
    return out


def is_main(st):
    return isinstance(st, ast.If) and '__main__' in ast.unparse(st.test) or \
        isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef))


def top_nodes(st):
    """what a module level statement evaluates"""
    if isinstance(st, ast.ClassDef):
        for b in st.body:
            if not is_main(b):
                yield from top_nodes(b)
        return
    todo = [st]
    while todo:
        x = todo.pop()
        yield x
        for y in ast.iter_child_nodes(x):
            if not isinstance(y, (ast.FunctionDef, ast.Lambda)):
                todo.append(y)


U = 'hwp5/utils.py'
REC = 'hwp5/proc/records.py'
STDOUT = ('        if PY3:\n            @contextmanager\n'
          '            def open_stdout():\n'
          '                yield sys.stdout.buffer\n'
          '            return open_stdout\n        else:\n'
          '            @contextmanager\n            def open_stdout():\n'
          '                yield sys.stdout\n'
          '            return open_stdout\n')
FILE = ("        @contextmanager\n        def open_dest_path():\n"
        "            with open(path, 'wb') as f:\n                yield f\n"
        "        return open_dest_path\n")
CAT = """    if PY2:
        output_fp = sys.stdout
    else:
        output_fp = sys.stdout.buffer

"""
RAW = """        for record in stream.records(**opts):
            hdr = encode_record_header(record)
            stdout_binary.write(hdr)
"""

witnesses = [
    ('print in the library', 'hwp5/recordstream.py',
     "    records = self.records(**kwargs)\n        return Json".replace(
         '    records', '        records', 1),
     "        records = self.records(**kwargs)\n"
     "        print('records')\n        return Json"),
    ('print in the reader', 'hwp5/bintype.py',
     '    except ParseError as e:\n        e.binevents = binevents',
     '    except ParseError as e:\n        print(type)\n'
     '        e.binevents = binevents'),
    ('print in a converter', 'hwp5/utils.py',
     "        logger.info('%s: pkg_resources_filename failed; using "
     "resource_stream',\n                    res_path)",
     "        print('%s: pkg_resources_filename failed; using "
     "resource_stream' %\n              res_path)"),
    ('log to stdout', 'hwp5/cli.py', [
        ('import logging\n', 'import logging\nimport sys\n'),
        ('logging.StreamHandler()', 'logging.StreamHandler(sys.stdout)')]),
    ('print of the failure', 'hwp5/hwp5proc.py',
     """    except InvalidHwp5FileError as e:
        logger.error('%s', e)""", """    except InvalidHwp5FileError as e:
        print('%s' % e)"""),
    ('print of the failure, html', 'hwp5/hwp5html.py',
     """    except InvalidHwp5FileError as e:
        logger.error('%s', e)""", """    except InvalidHwp5FileError as e:
        sys.stdout.write('%s\\n' % e)"""),
    ('print before the exit', 'hwp5/cli.py',
     """        logger = logging.getLogger('hwp5')
        logger.error('a record stream should be specified')
""", """        print('a record stream should be specified')
"""),
    ('text before raw records', REC, RAW,
     "        stdout_text.write('headers\\n')\n" + RAW),
    ('text after raw records', REC, RAW, RAW + "        print()\n"),
    ('newline after a stream', 'hwp5/proc/cat.py',
     """        finally:
            if hasattr""", """        finally:
            print('')
            if hasattr"""),
    ('message after the text', 'hwp5/hwp5txt.py',
     '                transform(hwp5file, dest)\n',
     '                transform(hwp5file, dest)\n'
     '        print(hwp5path)\n'),
    ('text into the JSON', 'hwp5/proc/models.py',
     """    if args.treegroup:
        treegroup = int(args.treegroup)
""", """    if args.treegroup:
        treegroup = int(args.treegroup)
        print('treegroup', treegroup)
"""),
    ('text after the JSON', 'hwp5/proc/models.py',
     """    print_models(models)
""", """    print_models(models)
    if args.seqno:
        print('--', args.seqno)
"""),
    ('summary of the records', REC,
     '        stream.records_json(**opts).dump(stdout_text)',
     "        stream.records_json(**opts).dump(stdout_text)\n"
     "        stdout_text.write('// {}\\n'.format(opts))"),
    ('xsltproc without output', 'hwp5/plat/xsltproc.py',
     "self.cmd + ['-o', output, self.xsl_path, input]",
     "self.cmd + [self.xsl_path, input]"),
    ('xmllint echoes', 'hwp5/plat/xmllint.py',
     "args = [executable, '--noout', '--relaxng', self.rng_path, '-']",
     "args = [executable, '--relaxng', self.rng_path, '-']"),
    ('filter without output', U,
     'stdin=subprocess.PIPE, stdout=output)', 'stdin=subprocess.PIPE)'),
    ('messages in the data', 'hwp5/plat/xsltproc.py',
     'p = Popen(cmd, stdout=subprocess.PIPE)',
     'p = Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)'),
    ('stdout replaced', 'hwp5/proc/find.py',
     'def main(args):\n', 'def main(args):\n    import sys\n'
     '    sys.stdout = sys.stderr\n'),
    ('pager for files', U, """            if output.isatty():
                with""", """            if output is not None:
                with"""),
    ('highlighting everywhere', 'hwp5/hwp5html.py',
     """def wrap_for_css(open_dest):
    from .utils import wrap_open_dest_for_tty
""", """def wrap_for_css(open_dest):
    from .utils import wrap_open_dest as wrap_open_dest_for_tty
"""),
    ('stdout although a file is given', U, '    if path:\n'
     '        @contextmanager', '    if not path:\n        @contextmanager'),
    ('stdout unless the file exists', U, '    if path:\n'
     '        @contextmanager', "    if path and os.path.exists(path):\n"
     "        @contextmanager"),
]
benign = [
    ('helper for the binary output', [
        (U, 'def make_open_dest_file(path):',
         'def stdout_binary():\n    if PY3:\n        return sys.stdout.buffer\n'
         '    return sys.stdout\n\n\ndef make_open_dest_file(path):'),
        ('hwp5/proc/cat.py', CAT, '    output_fp = stdout_binary()\n\n'),
        ('hwp5/proc/cat.py', 'from ..storage import open_storage_item\n',
         'from ..storage import open_storage_item\n'
         'from ..utils import stdout_binary\n'),
    ]),
    ('print to the given file', 'hwp5/proc/version.py', [
        ("print('%d.%d.%d.%d' % h.version)",
         "print('%d.%d.%d.%d' % h.version, file=sys.stdout)"),
        ('from contextlib import closing\n',
         'from contextlib import closing\nimport sys\n')]),
    ('message on stderr', 'hwp5/hwp5proc.py', [
        ("        logger.error('%s', e)\n        raise SystemExit(1)",
         "        logger.error('%s', e)\n"
         "        print('%s' % e, file=sys.stderr)\n"
         "        raise SystemExit(1)"),
        ('import logging\n', 'import logging\nimport sys\n')]),
    ('one function per format', REC, [
        ("""        for record in stream.records(**opts):
            stdout_text.write('{:04d} {} {}\\n'.format(
                record['seqno'],
                '  ' * record['level'],
                record['tagname'],
            ))
""", """        print_simple(stream, opts)
"""),
        (RAW, "        print_headers(stream, opts, stdout_binary)\n"),
        ("def records_argparser", """def print_simple(stream, opts):
    for record in stream.records(**opts):
        print('{:04d} {} {}'.format(
            record['seqno'],
            '  ' * record['level'],
            record['tagname'],
        ))


def print_headers(stream, opts, out):
    for record in stream.records(**opts):
        out.write(encode_record_header(record))


def records_argparser""")]),
    ('formats tested one by one', REC, [
        ('    elif args.raw:\n', '        return\n    if args.raw:\n'),
        ('            dump_record(stdout_binary, record)\n'
         '    elif args.raw_header',
         '            dump_record(stdout_binary, record)\n'
         '        return\n    if args.raw_header')]),
    ('destination the other way round', U,
     '    if path:\n' + FILE + '    else:\n' + STDOUT,
     '    if not path:\n' + STDOUT + '    else:\n' + FILE),
    ('one context manager', U,
     '    if path:\n' + FILE + '    else:\n' + STDOUT,
     '''    @contextmanager
    def open_dest():
        if path:
            with open(path, 'wb') as f:
                yield f
        elif PY3:
            yield sys.stdout.buffer
        else:
            yield sys.stdout
    return open_dest
'''),
    ('shared writer', [
        (U, 'def make_open_dest_file(path):',
         'def write_stdout(data):\n    sys.stdout.buffer.write(data)\n\n\n'
         'def make_open_dest_file(path):'),
        ('hwp5/proc/cat.py', 'output_fp.write(data)', 'write_stdout(data)'),
        ('hwp5/proc/cat.py', 'from ..storage import open_storage_item\n',
         'from ..storage import open_storage_item\n'
         'from ..utils import write_stdout\n'),
    ]),
    ('silent validation built up', 'hwp5/plat/xmllint.py',
     "args = [executable, '--noout', '--relaxng', self.rng_path, '-']",
     "args = [executable]\n        args.append('--noout')\n"
     "        args += ['--relaxng', self.rng_path, '-']"),
    ('terminal asked first', U, '''            if output.isatty():
                with cascade_contextmanager_filters(output,
                                                    wrappers) as output:
                    yield output
            else:
                yield output
''', '''            if not output.isatty():
                yield output
            else:
                with cascade_contextmanager_filters(output,
                                                    wrappers) as output:
                    yield output
'''),
]
