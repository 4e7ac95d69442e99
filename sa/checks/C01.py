# -*- coding: utf-8 -*-
"""C01 command options and subcommands are wired up completely."""
import ast
import os
import re
from ..terms import T, Term, is_const, cval, subterms
from ..cases import walk, value
from ..flow import dominators, facts_at
from ..prog import iter_scope
from ._util import fn_args, is_none
from .R10 import entry_points

TECHNIQUE = ('abstract interpretation of the functions that build the '
             'argument parsers (parser objects, groups, options, bound '
             'implementations) joined with an interprocedural def-use '
             'analysis of the parsed namespace; guard analysis of every use '
             'of an option value; reachability of the effect of each switch '
             'under both of its values')
LEVEL_NOTE = ('Parsers built from computed names or keyword dictionaries are '
              'not judged; the effect table names the selections whose '
              'result has its own function.')
EXPLANATION = '''The flow graphs of the functions that make parsers are
evaluated to the parsers they build: every add_argument with its flags,
destination, type, default and group, every add_parser with the function bound
to it. The namespace returned by parse_args is followed from the entry points
and the bound functions through assignments, calls and nested functions, and
every attribute read from it must be a destination of the parser of that
command; every destination must be read by it. In the flow graphs of the
commands a value that is None when the option is absent is used as text only
where it was tested; a number is not tested by its truth; a switch is not used
as text; the constants an option is compared with are its choices. A switch
reaches the function which does what it names, and only when given.'''

ADDERS = ('add_argument', 'add_parser', 'add_subparsers', 'set_defaults',
          'add_mutually_exclusive_group', 'add_argument_group', 'parse_args',
          'parse_known_args')
GROUPS = ('add_mutually_exclusive_group', 'add_argument_group')
STR = set(dir('')) - set(dir(object))


class Option(object):
    def __init__(self):
        self.flags, self.dest, self.action = (), None, 'store'
        self.type = self.default = self.nargs = self.choices = None
        self.group, self.required, self.loc = None, False, None
        self.positional = False

    @property
    def may_be_none(self):
        """absent on the command line means None"""
        if self.action not in ('store', 'append', 'store_const'):
            return False
        if self.required or self.default is not None:
            return False
        if self.positional:
            return self.nargs in ('?',) and True
        return True


class Parser(object):
    def __init__(self, term):
        self.term, self.name = term, None
        self.parent = None
        self.options, self.defaults = [], {}
        self.opaque = None
        self.loc = None

    def dests(self):
        s = {o.dest for o in self.options} | set(self.defaults)
        return s | self.parent.dests() if self.parent is not None else s


def root(t, made):
    """the parser on which a group (of a group ...) is made, the group"""
    group = None
    while True:
        if t in made:
            return t, group
        fn, _a = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in GROUPS:
            if fn.args[1] == 'add_mutually_exclusive_group' and \
                    group is None:
                group = t
            t = fn.args[0]
            continue
        return None, None


def kwargs(n):
    return {k: v for k, v in (n.get('kw') or ()) if k is not None}


def has_star(n):
    return any(k is None or str(k).startswith('*')
               for k, _v in (n.get('kw') or ())) or \
        any(isinstance(a, Term) and a.op in ('star', 'starred')
            for a in n.args)


class Model(object):
    """the parsers of one tool"""

    def __init__(self, ctx, fi):
        self.ctx, self.fi = ctx, fi
        self.parsers = {}
        self.opaque = None
        makers = makers_of(ctx)
        self.g = ctx.graph(fi, inline=lambda f, w: f in makers)
        self.subs = {}
        self.parse = None
        for n in sorted(self.g.nodes, key=lambda n: n.id):
            if n.kind == 'call':
                self.step(n)

    def step(self, n):
        fn, r = n.fn, n.get('result')
        if fn.op == 'ext' and fn.args[0].endswith('argparse.ArgumentParser'):
            p = Parser(r)
            p.loc = self.ctx.where(n)
            kw = kwargs(n)
            if 'parents' in kw or has_star(n):
                p.opaque = 'parents'
            self.parsers[r] = p
            return
        if fn.op != 'attr' or fn.args[1] not in ADDERS:
            return
        name, recv = fn.args[1], fn.args[0]
        if name == 'add_subparsers':
            t, _g = root(recv, self.parsers)
            if t is not None:
                self.subs[r] = self.parsers[t]
                d = kwargs(n).get('dest')
                if d is not None and is_const(d) and cval(d):
                    o = Option()
                    o.dest, o.action = cval(d), 'subcommand'
                    o.loc = self.ctx.where(n)
                    self.parsers[t].options.append(o)
            return
        if name == 'add_parser':
            if recv in self.subs:
                p = Parser(r)
                p.parent = self.subs[recv]
                p.loc = self.ctx.where(n)
                if n.args and is_const(n.args[0]):
                    p.name = cval(n.args[0])
                if 'parents' in kwargs(n) or has_star(n):
                    p.opaque = 'parents'
                self.parsers[r] = p
            else:
                self.opaque = 'a subparser of something unknown'
            return
        t, group = root(recv, self.parsers)
        if t is None:
            if name in ('add_argument', 'set_defaults'):
                self.opaque = 'an option of something unknown'
            return
        p = self.parsers[t]
        if name in ('parse_args', 'parse_known_args'):
            self.parse = p
        elif name == 'set_defaults':
            if has_star(n):
                p.opaque = 'defaults'
            for k, v in kwargs(n).items():
                p.defaults[k] = (v, n)
        elif name == 'add_argument':
            self.option(p, group, n)

    def option(self, p, group, n):
        if has_star(n) or not n.args or \
                not all(is_const(a) and isinstance(cval(a), str)
                        for a in n.args):
            p.opaque = 'option names'
            return
        o = Option()
        o.loc = self.ctx.where(n)
        o.group = group
        o.node = n
        o.flags = tuple(cval(a) for a in n.args)
        kw = kwargs(n)
        o.positional = not o.flags[0].startswith('-')
        if 'dest' in kw:
            if not is_const(kw['dest']):
                p.opaque = 'dest'
                return
            o.dest = cval(kw['dest'])
        elif o.positional:
            o.dest = o.flags[0]
        else:
            long = [f for f in o.flags if f.startswith('--')]
            o.dest = (long or list(o.flags))[0].lstrip('-').replace('-', '_')
        a = kw.get('action')
        if a is not None:
            o.action = cval(a) if is_const(a) else 'unknown'
        t = kw.get('type')
        if t is not None:
            o.type = t.args[0] if t.op in ('ext', 'class', 'func') else '?'
        d = kw.get('default')
        if d is not None:
            o.default = cval(d) if is_const(d) else '?'
        na = kw.get('nargs')
        if na is not None:
            o.nargs = cval(na) if is_const(na) else '?'
        r = kw.get('required')
        o.required = r is not None and (not is_const(r) or bool(cval(r)))
        ch = kw.get('choices')
        if ch is not None:
            o.choices = constants(ch)
        p.options.append(o)


def constants(t):
    """the elements of a constant collection, or '?'"""
    if is_const(t) and isinstance(cval(t), (tuple, list, set, frozenset)):
        return list(cval(t))
    if t.op in ('container', 'tuple', 'list', 'set'):
        out = []
        for x in t.args:
            xs = x if isinstance(x, tuple) else (x,)
            for y in xs:
                if isinstance(y, Term):
                    if not is_const(y):
                        return '?'
                    out.append(cval(y))
        return out
    return '?'


def makers_of(ctx):
    """functions that make parsers or options"""
    hit = getattr(ctx, '_c01_makers', None)
    if hit is None:
        direct = set()
        for f, g in ctx.graphs.items():
            for n in g.nodes:
                if n.kind == 'call' and (
                        n.fn.op == 'attr' and n.fn.args[1] in ADDERS[:6] or
                        n.fn.op == 'ext' and
                        n.fn.args[0].endswith('argparse.ArgumentParser')):
                    direct.add(f)
        hit = set(direct)
        while True:
            more = {f for f in ctx.graphs if f not in hit and any(
                n.kind == 'call' and n.fn.op == 'func' and
                n.fn.args[0] in hit and gives_parser(n.fn.args[0])
                for n in ctx.graphs[f].nodes)}
            more = {f for f in more if gives_parser(f)}
            if not more:
                break
            hit |= more
        hit = {f for f in hit if gives_parser(f)}
        ctx._c01_makers = hit
    return hit


def gives_parser(f):
    """not a function that runs the command: it does not parse"""
    return not any(isinstance(x, ast.Attribute) and x.attr in
                   ('parse_args', 'parse_known_args')
                   for x in ast.walk(f.node))


# -------------------------------------------------- users of the namespace

class Uses(object):
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.reads = []          # (dest, FuncInfo, ast node, tolerant)
        self.escapes = []
        self.seen = set()

    def follow(self, f, names, at=None):
        key = (f, frozenset(names))
        if key in self.seen:
            return
        self.seen.add(key)
        names = set(names)
        body = f.node.body
        if not isinstance(body, list):
            body = [body]
        # aliases
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) \
                    and s.value.id in names:
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
        for s in body:
            self.visit(f, s, names, False)

    def visit(self, f, x, names, tolerant):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            a = x.args
            bound = {p.arg for p in a.args + a.kwonlyargs +
                     getattr(a, 'posonlyargs', [])}
            bound |= {p.arg for p in (a.vararg, a.kwarg) if p is not None}
            for d in a.defaults + [k for k in a.kw_defaults if k]:
                self.visit(f, d, names, tolerant)
            inner = names - bound
            g = self.prog.func_by_node.get(x, f)
            for s in (x.body if isinstance(x.body, list) else [x.body]):
                self.visit(g, s, inner, tolerant)
            return
        if isinstance(x, ast.Try):
            tol = tolerant or any(
                h.type is None or 'AttributeError' in ast.dump(h.type) or
                "'Exception'" in ast.dump(h.type) for h in x.handlers)
            for s in x.body:
                self.visit(f, s, names, tol)
            for s in x.handlers + x.orelse + x.finalbody:
                self.visit(f, s, names, tolerant)
            return
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                and x.value.id in names:
            if isinstance(x.ctx, ast.Load):
                self.reads.append((x.attr, f, x, tolerant))
            else:
                self.reads.append((x.attr, f, x, True))
            return
        if isinstance(x, ast.Call):
            self.call(f, x, names, tolerant)
            return
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and \
                x.value.id in names and \
                all(isinstance(t, ast.Name) for t in x.targets):
            return
        if isinstance(x, ast.Name) and x.id in names and \
                isinstance(x.ctx, ast.Load):
            self.escapes.append((f, x))
            return
        for y in ast.iter_child_nodes(x):
            self.visit(f, y, names, tolerant)

    def call(self, f, x, names, tolerant):
        fn = x.func
        here = [a for a in x.args if isinstance(a, ast.Name) and
                a.id in names]
        herek = [k for k in x.keywords if isinstance(k.value, ast.Name) and
                 k.value.id in names]
        rest = [a for a in x.args if a not in here] + \
            [k.value for k in x.keywords if k not in herek]
        self.visit(f, fn, names, tolerant)
        for y in rest:
            self.visit(f, y, names, tolerant)
        if not here and not herek:
            return
        if isinstance(fn, ast.Name) and fn.id in (
                'getattr', 'hasattr') and x.args and x.args[0] in here:
            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                self.reads.append((x.args[1].value, f, x,
                                   len(x.args) > 2 or fn.id == 'hasattr'
                                   or tolerant))
            else:
                self.escapes.append((f, x))
            return
        targets = [e[1] for e in self.prog.resolve_expr(f.module, fn, f)
                   if e[0] == 'func']
        args = list(x.args)
        if not targets and isinstance(fn, ast.Name) and \
                fn.id == 'partial' and args:
            targets = [e[1] for e in self.prog.resolve_expr(
                f.module, args[0], f) if e[0] == 'func']
            args = args[1:]
        if not targets:
            self.escapes.append((f, x))
            return
        for t in targets:
            ps = {t.params[i] for i, a in enumerate(args)
                  if a in here and i < len(t.params)}
            ps |= {k.arg for k in herek if k.arg in t.params}
            if not ps or any(isinstance(a, ast.Starred) for a in args):
                self.escapes.append((f, x))
                continue
            if self.prog.class_by_node and t.cls is not None:
                self.escapes.append((f, x))
                continue
            self.follow(t, ps)


def namespace_names(prog, f):
    """local names of f bound to the result of parse_args"""
    out = set()
    for s in iter_scope(f.node):
        if not isinstance(s, ast.Assign):
            continue
        v = s.value
        known = isinstance(v, ast.Call) and isinstance(
            v.func, ast.Attribute) and v.func.attr == 'parse_args'
        if not known and isinstance(v, ast.Call) and \
                isinstance(v.func, ast.Name):
            for e in prog.resolve_expr(f.module, v.func, f):
                if e[0] == 'func' and returns_namespace(e[1]):
                    known = True
        if known:
            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return out


def returns_namespace(f):
    rs = [x for x in iter_scope(f.node) if isinstance(x, ast.Return)]
    names = {t.id for s in iter_scope(f.node) if isinstance(s, ast.Assign)
             and isinstance(s.value, ast.Call) and
             isinstance(s.value.func, ast.Attribute) and
             s.value.func.attr == 'parse_args'
             for t in s.targets if isinstance(t, ast.Name)}
    return bool(rs) and all(
        isinstance(r.value, ast.Call) and
        isinstance(r.value.func, ast.Attribute) and
        r.value.func.attr == 'parse_args' or
        isinstance(r.value, ast.Name) and r.value.id in names for r in rs)


class Tool(object):
    """an entry point, its parser and its subcommands"""

    def __init__(self, ctx, name, fi):
        self.ctx, self.name, self.fi = ctx, name, fi
        self.model = Model(ctx, fi)
        ps = [p for p in self.model.parsers.values() if p.parent is None]
        self.top = self.model.parse or (ps[0] if len(ps) == 1 else None)
        self.uses = Uses(ctx)
        names = namespace_names(ctx.prog, fi)
        self.known = bool(names)
        if names:
            self.uses.follow(fi, names)
        self.subs = [p for p in self.model.parsers.values()
                     if p.parent is not None]
        self.sub_uses = {}
        for p in self.subs:
            f = bound(p)
            if f is not None and f.params:
                u = Uses(ctx)
                u.follow(f, {f.params[0]})
                self.sub_uses[p] = u


def bound(p):
    v = p.defaults.get('func')
    if v is None:
        for k, (t, n) in p.defaults.items():
            if t.op == 'func':
                return t.args[0]
        return None
    return v[0].args[0] if v[0].op == 'func' else None


def tools_of(ctx):
    hit = getattr(ctx, '_c01_tools', None)
    if hit is None:
        hit = []
        entries = dict(entry_points(ctx))
        for name, f in sorted(entries.items()):
            t = Tool(ctx, name, f)
            if t.top is not None:
                hit.append(t)
        ctx._c01_tools = hit
    return hit


def run(ctx):
    tools = tools_of(ctx)
    parser_rule(ctx, tools)
    defined_rule(ctx, tools)
    used_rule(ctx, tools)
    sub_rule(ctx, tools)
    value_rule(ctx, tools)
    effect_rule(ctx, tools)


def parser_rule(ctx, tools):
    R = 'C01.parser'
    ctx.rule(R, 'no two options of a command share a flag or a destination, '
             'and a command does not redefine an option of the tool', 20)
    for t in tools:
        for p in [t.top] + t.subs:
            flags, dests = {}, {}
            up = {o.dest for o in p.parent.options} if p.parent else set()
            for o in p.options:
                what = '%s %s' % (p.name or t.name, o.dest)
                dup = [f for f in o.flags if f in flags and
                       f.startswith('-')]
                ctx.check(not dup, R, what + ' flag',
                          '%s is given to two options' % dup, o.loc)
                for f in o.flags:
                    flags[f] = o
                q = dests.get(o.dest)
                ok = q is None or (
                    q.group is not None and q.group is o.group) or \
                    o.action in ('store_const', 'append_const') or \
                    {q.action, o.action} == {'store_true', 'store_false'}
                ctx.check(ok, R, what + ' dest',
                          'two options store into %s' % o.dest, o.loc)
                dests[o.dest] = o
                ctx.check(o.dest not in up, R, what + ' shadows',
                          'the option of the tool of the same name is reset '
                          'by the default of the subcommand', o.loc)
                ctx.check(not (p.defaults.get(o.dest)), R,
                          what + ' default', 'is also a default of the '
                          'parser', o.loc)


def where_ast(f, x):
    return '%s:%d' % (f.module.relpath if hasattr(f.module, 'relpath')
                      else f.module.name, x.lineno)


def opaque(p):
    while p is not None:
        if p.opaque:
            return True
        p = p.parent
    return False


def defined_rule(ctx, tools):
    R = 'C01.defined'
    ctx.rule(R, 'every option value that a command reads is defined by the '
             'parser of that command', 30)
    for t in tools:
        if t.model.opaque:
            continue
        subs = set()
        for p in t.subs:
            subs |= p.dests()
        if not opaque(t.top):
            have = t.top.dests()
            only = set.intersection(*[p.dests() for p in t.subs]) if t.subs \
                else set()
            for d, f, x, tol in t.uses.reads:
                ok = d in have or tol and d in subs or \
                    d in only and len(t.subs) == 1 or tol and not t.subs
                ctx.check(ok, R, '%s %s.%s' % (t.name, f.qualname, d),
                          'args.%s is not an option of %s' % (d, t.name),
                          where_ast(f, x))
        for p, u in t.sub_uses.items():
            if opaque(p):
                continue
            have = p.dests()
            for d, f, x, tol in u.reads:
                ctx.check(d in have or tol, R, '%s %s %s.%s' % (
                    t.name, p.name, f.qualname, d),
                    'args.%s is not an option of %s %s' % (
                        d, t.name, p.name), where_ast(f, x))


def read_somewhere(t, p, dest):
    us = [t.uses]
    if p is t.top:
        us += list(t.sub_uses.values())
    else:
        us.append(t.sub_uses.get(p))
    return any(u is not None and (
        u.escapes and not (u is t.uses and only_dispatch(t)) or any(
            d == dest for d, _f, _x, _t in u.reads)) for u in us)


def only_dispatch(t):
    """the tool hands its namespace on only to the bound implementation"""
    return len(t.sub_uses) > 1 and len(t.uses.escapes) == 1 and isinstance(
        t.uses.escapes[0][1], ast.Call) and any(
            d in p.defaults for p in t.subs
            for d, _f, _x, _t in t.uses.reads)


def used_rule(ctx, tools):
    R = 'C01.used'
    ctx.rule(R, 'every option a command defines is read by the command', 40)
    for t in tools:
        if t.model.opaque or not t.known:
            continue
        for p in [t.top] + t.subs:
            if p is not t.top and p not in t.sub_uses:
                continue
            for o in p.options:
                if o.action in ('version', 'help', 'subcommand', 'unknown'):
                    continue
                ok = read_somewhere(t, p, o.dest)
                if not ok and o.action == 'store_true' and \
                        o.group is not None:
                    # naming the default of a choice explicitly
                    others = [q for q in p.options
                              if q.group is o.group and q is not o]
                    # (what is off unless asked for is not asked to be off)
                    ok = bool(others) and not negation(o, others) and all(
                        read_somewhere(t, p, q.dest) for q in others)
                ctx.check(ok, R, '%s %s' % (p.name or t.name, o.dest),
                          '%s is accepted and ignored' % '/'.join(o.flags),
                          o.loc)


def negation(o, others):
    """--no-x beside --x: it is there because x may be on by default"""
    names = {f.lstrip('-') for q in others for f in q.flags}
    return any(f.startswith('--no-') and f[5:] in names for f in o.flags)


def sub_rule(ctx, tools):
    R = 'C01.subcommands'
    ctx.rule(R, 'every subcommand is bound to an implementation of its own '
             'that takes the parsed arguments; every implementation and '
             'every documented subcommand is reachable', 20)
    for t in tools:
        runs = [p for p in t.subs if p.defaults]
        if not t.subs or not runs:
            continue
        names, impls = {}, {}
        for p in t.subs:
            what = '%s %s' % (t.name, p.name)
            f = bound(p)
            if p.opaque:
                continue
            v = p.defaults.get('func')
            if v is not None and f is None:
                continue
            ctx.check(f is not None, R, what, 'is bound to no function',
                      p.loc)
            if f is None:
                continue
            need = [a for a in f.node.args.args]
            nd = len(f.node.args.defaults)
            ctx.check(len(need) >= 1 and len(need) - nd <= 1, R,
                      what + ' signature', '%s does not take just the '
                      'arguments' % f.fullname, p.loc)
            if p.name is not None:
                ctx.check(p.name not in names, R, what + ' name',
                          'two subcommands have this name', p.loc)
            ctx.check(f not in impls, R, what + ' implementation',
                      '%s already implements %s' % (
                          f.fullname, impls.get(f)), p.loc)
            names[p.name] = p
            impls[f] = p.name
        if t.model.opaque or None in names:
            continue
        # the binding is what the tool calls
        key = [k for p in runs for k in p.defaults]
        for k in sorted(set(key)):
            if all(k in p.defaults and p.defaults[k][0].op == 'func'
                   for p in runs):
                ctx.check(any(d == k for d, _f, _x, _t in t.uses.reads) or
                          bool(t.uses.escapes), R, '%s calls %s' % (
                              t.name, k), 'args.%s is bound by the '
                          'subcommands and never called' % k)
        # implementations left out
        pk = sorted({f.module.name.rsplit('.', 1)[0] for f in impls})
        for m in sorted(ctx.prog.modules):
            if m.rsplit('.', 1)[0] not in pk or \
                    m.rsplit('.', 1)[0] == 'hwp5':
                continue
            fm = ctx.prog.find_func(m, 'main')
            if fm is not None and len(fm.params) == 1:
                ctx.check(fm in impls, R, 'reachable %s' % fm.fullname,
                          'no subcommand leads to it')
        for nm in documented(ctx, t.name):
            ctx.check(nm in names, R, 'documented %s' % nm,
                      'the documentation describes a subcommand which is '
                      'not there')


def documented(ctx, tool):
    path = os.path.join(ctx.prog.repo if hasattr(ctx.prog, 'repo')
                        else '/repo', 'docs', tool + '.rst')
    if not os.path.exists(path):
        return []
    text = open(path, encoding='utf-8').read()
    return sorted({m.group(1) for m in re.finditer(
        r'^%s\s+([a-z]+)\b' % re.escape(tool), text, re.M)} |
        {m.group(1) for m in re.finditer(
            r'^\s+:path: ([a-z]+)\s*$', text, re.M)})


# ------------------------------------------------------------------ values

def graph_of(ctx, t, p):
    """the graph of a command with what it hands its arguments to"""
    f = t.fi if p is t.top else bound(p)
    u = t.uses if p is t.top else t.sub_uses.get(p)
    if f is None or u is None:
        return None, None
    fs = {x for x, _n in u.seen}
    own = {t.fi}
    g = ctx.graph(f, inline=lambda x, w: x in fs and x not in own)
    return g, f


def namespace_of(g, f, p, t):
    if p is t.top:
        out = set()
        for n in g.nodes:
            if n.kind == 'call' and n.fn.op == 'attr' and \
                    n.fn.args[1] == 'parse_args':
                out.add(n.get('result'))
        return out
    return {T('sym', f.params[0])}


def option_of(term, ns, opts):
    if term.op == 'attr' and term.args[0] in ns:
        return opts.get(term.args[1])
    return None


TEXT_CALLS = ('builtins.int', 'builtins.open', 'io.open', 'builtins.float',
              'builtins.len', 'os.path.join', 'os.path.basename',
              'os.path.splitext', 'os.path.exists', 'os.path.abspath',
              'os.mkdir', 'os.makedirs', 'builtins.tuple', 'builtins.list',
              'builtins.sorted', 'builtins.set')


def guarded(facts, a):
    """the value is known not to be None here"""
    for c, pol, _b in facts:
        st = [(c, pol)]
        while st:
            x, p = st.pop()
            if x is a and p:
                return True
            if x.op == 'not':
                st.append((x.args[0], not p))
            elif x.op == 'and' and p or x.op == 'or' and not p:
                st.extend((y, p) for y in x.args)
            elif x.op == 'cmp':
                op, l, r = x.args
                if l is a or r is a:
                    o = r if l is a else l
                    if is_none(o):
                        if (op in ('is not', '!=')) == p and \
                                op in ('is not', '!=', 'is', '=='):
                            return True
                    elif op == '==' and p or op == '!=' and not p or \
                            op in ('<', '>', '<=', '>='):
                        return True
                    elif op == 'in' and p:
                        return True
            elif a in set(subterms(x)) and x.op in ('res', 'pure') and p:
                return True
    return False


def contradicted(facts, ns, opts):
    """two options which exclude each other are both given here"""
    on = []
    for c, pol, _b in facts:
        o = option_of(c, ns, opts)
        if o is not None and pol and o.group is not None:
            if any(q.group is o.group and q is not o for q in on):
                return True
            on.append(o)
    return False


def value_rule(ctx, tools):
    R = 'C01.values'
    ctx.rule(R, 'the type and default of an option suit each use of its '
             'value', 30)
    for t in tools:
        if t.model.opaque:
            continue
        for p in [t.top] + t.subs:
            static_values(ctx, R, t, p)
            if opaque(p):
                continue
            g, f = graph_of(ctx, t, p)
            if g is None:
                continue
            ns = namespace_of(g, f, p, t)
            opts = {o.dest: o for o in p.options}
            q = p.parent
            while q is not None:
                for o in q.options:
                    opts.setdefault(o.dest, o)
                q = q.parent
            uses_of_values(ctx, R, t, p, g, ns, opts)


def static_values(ctx, R, t, p):
    for o in p.options:
        what = '%s %s' % (p.name or t.name, o.dest)
        if isinstance(o.choices, list):
            ctx.check(o.default in (None, '?') or o.default in o.choices, R,
                      what + ' default', 'the default %r is not a choice' % (
                          o.default,), o.loc)
            kinds = {type(c) for c in o.choices}
            want = {'builtins.int': int, None: str,
                    'builtins.str': str}.get(o.type)
            if want is not None:
                ctx.check(kinds <= {want}, R, what + ' choices',
                          'the choices %s are never equal to what is '
                          'given' % (o.choices,), o.loc)
        if o.action == 'store_true':
            ctx.check(o.default in (None, '?', False), R, what + ' switch',
                      'the switch is on by default', o.loc)
        if o.action == 'store_false':
            ctx.check(o.default in (None, '?', True), R, what + ' switch',
                      'the switch is off by default', o.loc)
        if o.type == 'builtins.bool':
            ctx.bad(R, what + ' type', 'type=bool makes every non-empty '
                    'text true', o.loc)


def uses_of_values(ctx, R, t, p, g, ns, opts):
    dom = dominators(g)
    cmd = p.name or t.name
    compared, truth = {}, set()
    for n in g.nodes:
        ts = []
        for k, v in n.d.items():
            if isinstance(v, Term):
                ts.append((k, v))
            elif isinstance(v, (tuple, list)):
                for y in v:
                    if isinstance(y, Term):
                        ts.append((k, y))
                    elif isinstance(y, (tuple, list)):
                        ts.extend((k, z) for z in y if isinstance(z, Term))
        if not any(x.op == 'attr' and x.args[0] in ns
                   for _k, v in ts for x in subterms(v)):
            continue
        facts = None
        need = []           # (option, term, how)
        if n.kind == 'call':
            fn = n.fn
            if fn.op == 'attr':
                o = option_of(fn.args[0], ns, opts)
                if o is not None:
                    need.append((o, fn.args[0], 'method ' + fn.args[1]))
            if fn.op == 'ext' and fn.args[0] in TEXT_CALLS:
                for a in n.args:
                    o = option_of(a, ns, opts)
                    if o is not None:
                        need.append((o, a, 'call ' + fn.args[0]))
        if n.kind == 'new':
            for a in n.args:
                o = option_of(a, ns, opts)
                if o is not None:
                    need.append((o, a, 'constructor'))
        elif n.kind == 'getitem':
            o = option_of(n.obj, ns, opts)
            if o is not None:
                need.append((o, n.obj, 'subscript'))
        elif n.kind == 'loop':
            it = n.get('iter')
            o = option_of(it, ns, opts) if it is not None else None
            if o is not None:
                need.append((o, it, 'loop'))
            elif it is not None:
                letters(ctx, R, cmd, it, ns, opts, n)
        for k, v in ts:
            for x in subterms(v):
                if x.op == 'bin' and x.args[0] in ('+', '-', '*', '/', '//'):
                    for i in (1, 2):
                        o = option_of(x.args[i], ns, opts)
                        if o is not None:
                            need.append((o, x.args[i], 'arithmetic ' +
                                         x.args[0], x.args[3 - i]))
                if x.op == 'cmp':
                    for i in (1, 2):
                        o = option_of(x.args[i], ns, opts)
                        w = x.args[3 - i]
                        if o is None:
                            continue
                        if x.args[0] in ('==', '!=', 'is', 'is not') and \
                                is_const(w):
                            if cval(w) is not None:
                                compared.setdefault(o, set()).add(cval(w))
                        elif x.args[0] in ('in', 'not in') and i == 1 and \
                                isinstance(constants(w), list):
                            compared.setdefault(o, set()).update(
                                constants(w))
        c = n.get('cond') if n.kind == 'branch' else None
        st = [c] if c is not None else []
        while st:
            x = st.pop()
            if x.op in ('not', 'and', 'or'):
                st.extend(x.args)
            elif option_of(x, ns, opts) is not None:
                truth.add(option_of(x, ns, opts))
        for item in need:
            o, a, how = item[:3]
            what = '%s %s %s' % (cmd, o.dest, how.split()[0])
            if facts is None:
                facts = facts_at(g, n.id, dom)
            if contradicted(facts, ns, opts):
                continue
            if o.may_be_none:
                ctx.check(guarded(facts, a), R, what,
                          'args.%s is None when %s is not given, and is used '
                          '(%s) without looking' % (
                              o.dest, '/'.join(o.flags), how), ctx.where(n))
            kind = kind_of(o)
            if kind == 'bool' and how.split()[0] in (
                    'method', 'subscript', 'loop', 'call', 'constructor'):
                ctx.bad(R, what + ' kind', '%s is a switch and is used as a '
                        'value (%s)' % ('/'.join(o.flags), how),
                        ctx.where(n))
            if kind == 'str' and how.startswith('arithmetic'):
                w = item[3]
                ctx.check(not (is_const(w) and isinstance(
                    cval(w), (int, float)) and how.split()[1] in '+-/'),
                    R, what + ' kind', '%s is text and is used as a number' %
                    '/'.join(o.flags), ctx.where(n))
            if kind == 'str' and how == 'loop':
                letters(ctx, R, cmd, a, ns, opts, n)
            if kind == 'int':
                m = how.split()[1] if how.startswith('method') else None
                ctx.check(not (m in STR and m not in dir(0)) and
                          how.split()[0] not in ('subscript', 'loop'), R,
                          what + ' kind', '%s is a number and is used as '
                          'text (%s)' % ('/'.join(o.flags), how),
                          ctx.where(n))
            if kind == 'list':
                m = how.split()[1] if how.startswith('method') else None
                ctx.check(not (m in STR and m not in dir([])) and
                          how not in ('call builtins.int', 'constructor',
                                      'call builtins.open', 'call io.open'),
                          R, what + ' kind', '%s is a list and is used as '
                          'text (%s)' % ('/'.join(o.flags), how),
                          ctx.where(n))
    for o in opts.values():
        if o not in p.options:
            continue
        what = '%s %s' % (cmd, o.dest)
        kind = kind_of(o)
        if o in truth:
            ctx.check(kind != 'int' or o.default not in (None,), R,
                      what + ' zero', '%s takes a number and 0 is taken for '
                      'the option not given' % '/'.join(o.flags), o.loc)
        if kind == 'str':
            ctx.check(looked_at(t, p, o), R, what + ' ignored',
                      '%s takes a value that is never looked at' %
                      '/'.join(o.flags), o.loc)
        if o in compared:
            vals = compared[o]
            if kind == 'bool':
                ctx.check(all(isinstance(v, bool) for v in vals), R,
                          what + ' compared', '%s is a switch and is '
                          'compared with %s' % (
                              '/'.join(o.flags), sorted(map(repr, vals))),
                          o.loc)
            if kind == 'str':
                ctx.check(all(isinstance(v, str) for v in vals), R,
                          what + ' compared', '%s is text and is compared '
                          'with %s' % ('/'.join(o.flags),
                                       sorted(map(repr, vals))), o.loc)
            if kind == 'int':
                ctx.check(not any(isinstance(v, str) for v in vals), R,
                          what + ' compared', '%s is a number and is '
                          'compared with text' % '/'.join(o.flags), o.loc)
            if isinstance(o.choices, list):
                ctx.check(vals <= set(o.choices), R, what + ' compared',
                          'is compared with %s, which cannot be given' %
                          sorted(map(repr, vals - set(o.choices))), o.loc)
    choice_values(ctx, R, t, p, g, ns, opts, cmd)


def letters(ctx, R, cmd, it, ns, opts, n):
    """a loop over a text given goes letter by letter"""
    st = [it]
    while st:
        x = st.pop()
        if x.op == 'ite':
            st.extend(x.args[1:])
            continue
        if x.op == 'or':
            st.extend(x.args)
            continue
        o = option_of(x, ns, opts)
        if o is not None and kind_of(o) == 'str':
            ctx.bad(R, '%s %s loop kind' % (cmd, o.dest), '%s is a single '
                    'text and is read letter by letter' % (
                        '/'.join(o.flags) or o.dest), ctx.where(n))
        elif o is not None and kind_of(o) == 'list':
            ctx.ok(R, '%s %s loop' % (cmd, o.dest))


def choice_values(ctx, R, t, p, g, ns, opts, cmd):
    """comparisons with a default in place: (args.x or 'd') == 'c'"""
    for o in p.options:
        if not isinstance(o.choices, list):
            continue
        vals, direct = set(), False
        for n in g.nodes:
            c = n.get('cond') if n.kind == 'branch' else None
            if c is None:
                continue
            for x in subterms(c):
                if x.op != 'cmp':
                    continue
                for i in (1, 2):
                    w = x.args[3 - i]
                    vs = [cval(w)] if is_const(w) else constants(w)
                    if vs != '?' and any(
                            option_of(y, ns, {o.dest: o}) is o
                            for y in subterms(x.args[i])):
                        vals.update(v for v in vs if v is not None)
        if vals:
            bad = vals - set(o.choices)
            ctx.check(not bad, R, '%s %s choices' % (cmd, o.dest),
                      'is compared with %s, which cannot be given' %
                      sorted(map(repr, bad)), o.loc)
            left = set(o.choices) - vals
            ctx.check(len(left) <= 1, R, '%s %s distinguished' % (
                cmd, o.dest), 'the choices %s are not told apart' %
                sorted(map(repr, left)), o.loc)


def looked_at(t, p, o):
    """some read of the value is not just a test of its presence"""
    us = [t.uses] + ([t.sub_uses.get(p)] if p is not t.top
                     else list(t.sub_uses.values()))
    mine = [(f, x) for u in us if u is not None
            for d, f, x, _t in u.reads if d == o.dest]
    if not mine or any(u is not None and u.escapes and not (
            u is t.uses and only_dispatch(t)) for u in us):
        return True
    for f, x in mine:
        leaves = set()
        for y in ast.walk(f.node):
            if isinstance(y, (ast.If, ast.While, ast.IfExp)):
                st = [y.test]
                while st:
                    z = st.pop()
                    leaves.add(z)
                    if isinstance(z, ast.BoolOp):
                        st.extend(z.values)
                    elif isinstance(z, ast.UnaryOp):
                        st.append(z.operand)
        if x not in leaves:
            return True
    return False


def kind_of(o):
    if o.action in ('store_true', 'store_false'):
        return 'bool'
    if o.action == 'count':
        return 'count'
    if o.action == 'append' or o.nargs in ('*', '+') or \
            isinstance(o.nargs, int):
        return 'list'
    if o.action == 'store':
        if o.type in (None, 'builtins.str'):
            return 'str'
        if o.type in ('builtins.int',):
            return 'int'
    return None


# ----------------------------------------------------------------- effects

# (command, switch, what it selects, on)
EFFECTS = [
    ('records', 'raw', 'hwp5.recordstream:dump_record', True),
    ('records', 'raw_header', 'hwp5.recordstream:encode_record_header',
     True),
    ('records', 'simple', '.records_json', False),
    ('records', 'raw', '.records_json', False),
    ('records', 'raw_header', '.records_json', False),
    ('records', 'raw_payload', '.records_json', False),
    ('diststream', 'sha1', 'hwp5.distdoc:decode_head_to_sha1', True),
    ('diststream', 'key', 'hwp5.distdoc:decode_head_to_key', True),
    ('diststream', 'sha1', 'hwp5.distdoc:decode', False),
    ('diststream', 'key', 'hwp5.distdoc:decode', False),
    ('diststream', 'raw', 'binascii.b2a_hex', False),
    ('cat', 'ole', 'hwp5.storage.ole:OleStorage', True),
    ('cat', 'ole', 'hwp5.xmlmodel:Hwp5File', False),
    ('cat', 'vstreams', 'hwp5.storage:ExtraItemStorage', True),
    ('ls', 'ole', 'hwp5.storage.ole:OleStorage', True),
    ('ls', 'ole', 'hwp5.xmlmodel:Hwp5File', False),
    ('ls', 'vstreams', 'hwp5.storage:ExtraItemStorage', True),
    ('unpack', 'ole', 'hwp5.storage.ole:OleStorage', True),
    ('unpack', 'ole', 'hwp5.xmlmodel:Hwp5File', False),
    ('unpack', 'vstreams', 'hwp5.storage:ExtraItemStorage', True),
    ('models', 'events', '.parse_model_events', True),
    ('models', 'events', '.models', False),
    ('hwp5html', 'css', 'hwp5.hwp5html:wrap_for_css', True),
    ('hwp5html', 'html', 'hwp5.hwp5html:wrap_for_xml', True),
    ('hwp5html', 'css', 'hwp5.hwp5html:open_dir', False),
    ('hwp5html', 'html', 'hwp5.hwp5html:open_dir', False),
    ('hwp5html', 'css', '.transform_hwp5_to_css', True),
    ('hwp5html', 'html', '.transform_hwp5_to_xhtml', True),
    ('hwp5html', 'css', '.transform_hwp5_to_dir', False),
    ('hwp5html', 'html', '.transform_hwp5_to_dir', False),
    ('hwp5odt', 'document', '.transform_hwp5_to_single_document', True),
    ('hwp5odt', 'styles', '.transform_hwp5_to_styles', True),
    ('hwp5odt', 'content', '.transform_hwp5_to_content', True),
    ('hwp5odt', 'document', '.transform_hwp5_to_package', False),
    ('hwp5odt', 'styles', '.transform_hwp5_to_package', False),
    ('hwp5odt', 'content', '.transform_hwp5_to_package', False),
    ('hwp5odt', 'document', 'hwp5.hwp5odt:open_odtpkg', False),
    ('hwp5odt', 'styles', 'hwp5.hwp5odt:open_odtpkg', False),
    ('hwp5odt', 'content', 'hwp5.hwp5odt:open_odtpkg', False),
    ('xml', 'no_validate_wellformed', 'hwp5.utils:xmllint', False),
]


def is_ref(x, sink):
    if sink.startswith('.'):
        return x.op == 'attr' and x.args[1] == sink[1:]
    if ':' in sink:
        m, nm = sink.split(':')
        if x.op in ('func', 'class'):
            i = x.args[0]
            return i.module.name == m and getattr(
                i, 'qualname', i.name) == nm
        return False
    return x.op == 'ext' and x.args[0] == sink


def sinks_in(g, ev, seen, sink):
    """reached nodes which use the sink under the assumption"""
    out = []
    for i in seen:
        n = g.nodes[i]
        if n.kind == 'new':
            r = n.get('result')
            c = n.get('cls') or (r.args[1] if r is not None and
                                 r.op == 'inst' else None)
            if getattr(c, 'module', None) is not None and \
                    '%s:%s' % (c.module.name, c.name) == sink:
                out.append(n)
                continue
        for k, v in n.d.items():
            if k == 'result':
                continue
            st = [v]
            while st:
                x = st.pop()
                if isinstance(x, (tuple, list)):
                    st.extend(x)
                    continue
                if not isinstance(x, Term):
                    continue
                if is_ref(x, sink):
                    out.append(n)
                    st = []
                    break
                if x.op == 'ite':
                    c = value(x.args[0], ev)
                    if c is not False:
                        st.append(x.args[1])
                    if c is not True:
                        st.append(x.args[2])
                elif x.op in ('list', 'tuple', 'container', 'phi') or \
                        x.op == 'bin' and x.args[0] == '+':
                    st.extend(y for y in x.args)
                elif x.op in ('res', 'pure'):
                    fn, a = fn_args(x)
                    if fn is not None:
                        if fn.op != 'attr':
                            st.append(fn)
                        if fn.op == 'ext' and fn.args[0] == \
                                'functools.partial':
                            st.extend(a)
    return out


def settled(x, ev):
    while x.op == 'ite':
        c = value(x.args[0], ev)
        if c is None:
            return x
        x = x.args[1 if c else 2]
    return x


def effect_rule(ctx, tools):
    R = 'C01.effect'
    ctx.rule(R, 'a switch selects what it names, and only when it is given',
             15)
    by = {}
    for t in tools:
        by[t.name] = (t, t.top)
        for p in t.subs:
            by.setdefault(p.name, (t, p))
    graphs = {}
    for cmd, dest, sink, on in EFFECTS:
        if cmd not in by:
            continue
        t, p = by[cmd]
        opts = {o.dest: o for o in p.options}
        if dest not in opts or kind_of(opts[dest]) != 'bool':
            continue
        if p not in graphs:
            graphs[p] = graph_of(ctx, t, p)
        g, f = graphs[p]
        if g is None:
            continue
        ns = namespace_of(g, f, p, t)
        if not ns:
            continue
        off = opts[dest].action == 'store_false'
        if off and opts[dest].default not in (None, True):
            continue
        res = {}
        for given in (True, False):
            def ev(c, given=given):
                if c.op == 'cmp' and c.args[0] in ('==', '!=', 'is',
                                                   'is not'):
                    a, b = [settled(x, ev) for x in c.args[1:]]
                    if is_const(a) and is_const(b):
                        return (cval(a) == cval(b)) == (
                            c.args[0] in ('==', 'is'))
                    return None
                if c.op == 'attr' and c.args[0] in ns:
                    if c.args[1] == dest:
                        return given != off
                    o = opts.get(c.args[1])
                    if o is not None and given and o.group is not None and \
                            o.group is opts[dest].group:
                        return False
                    if o is not None and kind_of(o) == 'bool' and not given:
                        return None
                return None
            seen = walk(g, [g.entry if hasattr(g, 'entry') else 0], ev)
            res[given] = sinks_in(g, ev, seen, sink)
        if not res[True] and not res[False]:
            continue
        what = '%s --%s %s' % (cmd, dest.replace('_', '-'), sink)
        flag = '--' + dest.replace('_', '-')
        nm = sink.split(':')[-1].lstrip('.')
        ctx.check(bool(res[on]), R, what, '%s is never reached %s %s' % (
            nm, 'with' if on else 'without', flag), opts[dest].loc)
        ctx.check(not res[not on], R, what + ' only',
                  '%s is reached %s %s' % (
                      nm, 'without' if on else 'with', flag),
                  ctx.where(res[not on][0]) if res[not on] else None)


FIND = 'hwp5/proc/find.py'
RECORDS = 'hwp5/proc/records.py'
MODELS = 'hwp5/proc/models.py'
XML = 'hwp5/proc/xml.py'
DIST = 'hwp5/proc/diststream.py'
CLI = 'hwp5/cli.py'
PROC = 'hwp5/hwp5proc.py'
HTML = 'hwp5/hwp5html.py'
ODT = 'hwp5/hwp5odt.py'
CAT = 'hwp5/proc/cat.py'
LS = 'hwp5/proc/ls.py'

witnesses = [
    ('switch turned around', CAT, """        '--ole',
        action='store_true',""", """        '--ole',
        action='store_false',"""),
    ('one file, letter by letter', FIND, "nargs='*'", "nargs='?'"),
    ('option renamed', FIND, "'--from-stdin'", "'--stdin'"),
    ('dest renamed', XML, """        '--no-xml-decl',
        action='store_true',""", """        '--no-xml-decl',
        dest='no_xml_declaration',
        action='store_true',"""),
    ('option of ls dropped', LS, """    mutex_group.add_argument(
        '--vstreams',""", """    mutex_group.add_argument(
        '--virtual',"""),
    ('switch takes a value', CAT, """        '--ole',
        action='store_true',""", """        '--ole',
        metavar='<ole>',"""),
    ('negation ignored', 'hwp5/hwp5odt.py',
     "odt_transform.embedbin = not args.no_embed_image",
     "odt_transform.embedbin = True"),
    ('option ignored', XML, "embedbin=args.embedbin,", "embedbin=False,"),
    ('option ignored 2', FIND, "    if args.incomplete:\n",
     "    if False:\n"),
    ('not bound', DIST, "    parser.set_defaults(func=main)\n", ""),
    ('bound to another', PROC, "    from .proc.rawunz import "
     "rawunz_argparser\n", "    from .proc.rawunz import rawunz_argparser\n"
     "    from .proc.header import header_argparser as rawunz_argparser\n"),
    ('subcommand not registered', PROC,
     "    diststream_argparser(subcommands, _)\n", ""),
    ('subcommand registered twice', PROC,
     "    ls_argparser(subcommands, _)\n",
     "    ls_argparser(subcommands, _)\n    ls_argparser(subcommands, _)\n"),
    ('optional positional', LS, """        'hwp5file',
        metavar='<hwp5file>',""", """        'hwp5file',
        nargs='*',
        metavar='<hwp5file>',"""),
    ('number truth', MODELS, """        '--seqno',
        metavar='<treegroup>',""", """        '--seqno',
        type=int,
        metavar='<treegroup>',"""),
    ('range unguarded', RECORDS, """    if rng:
        rng = rng.split('-', 1)""", """    if True:
        rng = rng.split('-', 1)"""),
    ('seqno unguarded', MODELS, """    if args.seqno:
        seqno""", """    if not args.events:
        seqno"""),
    ('version default', MODELS, "args.file_format_version or '5.0.0.0'",
     "args.file_format_version"),
    ('loglevel unguarded', 'hwp5/binspec.py', None, None),
    ('choices', XML, "choices=['flat', 'nested']",
     "choices=['plain', 'nested']"),
    ('choices untold', XML, "choices=['flat', 'nested']",
     "choices=['flat', 'nested', 'pretty', 'raw']"),
    ('subcommand resets loglevel', CAT, "    parser.set_defaults(func=main)",
     "    parser.add_argument('--loglevel')\n"
     "    parser.set_defaults(func=main)"),
    ('ole inverted', CLI, "    if args.ole:", "    if not args.ole:"),
    ('vstreams inverted', CLI, "        if args.vstreams:",
     "        if not args.vstreams:"),
    ('raw inverted', DIST, """        if not args.raw:
            key""", """        if args.raw:
            key"""),
    ('raw swapped', RECORDS, [
        ("    elif args.raw:\n", "    elif args.raw_hdr:\n"),
        ("    elif args.raw_header:\n", "    elif args.raw:\n"),
        ("    elif args.raw_hdr:\n", "    elif args.raw_header:\n")]),
    ('css swapped', HTML, [
        ("    if args.css:\n", "    if args.html_:\n"),
        ("    elif args.html:\n", "    elif args.css:\n"),
        ("    if args.html_:\n", "    if args.html:\n")]),
    ('styles and content', ODT, [
        ("    elif args.styles:\n", "    elif args.content_:\n"),
        ("    elif args.content:\n", "    elif args.styles:\n"),
        ("    elif args.content_:\n", "    elif args.content:\n")]),
    ('wellformed inverted', XML, [
        ("] if not args.no_validate_wellformed else []))",
         "] if args.no_validate_wellformed else []))")]),
    ('args of another command', CLI, "        if args.vstreams:",
     "        if args.vstreams or args.format:"),
]
witnesses = [w for w in witnesses if w[2] is not None]

benign = [
    ('switch turned around twice', [(CAT, """        '--ole',
        action='store_true',""", """        '--ole',
        action='store_false',"""), (CLI, "if args.ole:",
      "if not args.ole:"), ('hwp5/proc/ls.py', """        '--ole',
        action='store_true',""", """        '--ole',
        action='store_false',"""), ('hwp5/proc/unpack.py',
      """        '--ole',
        action='store_true',""", """        '--ole',
        action='store_false',""")]),
    ('one or more', FIND, "nargs='*'", "nargs='+'"),
    ('alias', RECORDS, "    rng = args.range\n",
     "    options = args\n    rng = options.range\n"),
    ('helper for the positional', CAT, [
        ("""    parser.add_argument(
        'hwp5file',
        metavar='<hwp5file>',
        help=_('.hwp file to analyze'),
    )
""", "    add_file(parser, _)\n"),
        ("def cat_argparser(", """def add_file(parser, _):
    parser.add_argument(
        'hwp5file',
        metavar='<hwp5file>',
        help=_('.hwp file to analyze'),
    )


def cat_argparser(""")]),
    ('loop over the switches', DIST, """    op_group.add_argument(
        '--sha1',
        action='store_true',
        help=_('Print SHA-1 value for decryption.'),
    )
    op_group.add_argument(
        '--key',
        action='store_true',
        help=_('Print decrypted key.'),
    )
""", """    for flag, text in (
        ('--sha1', _('Print SHA-1 value for decryption.')),
        ('--key', _('Print decrypted key.')),
    ):
        op_group.add_argument(flag, action='store_true', help=text)
"""),
    ('nested conditions', CLI, """    if args.ole:
        hwpfile = OleStorage(filename)
    else:
        hwpfile = Hwp5File(filename)
        if args.vstreams:
            hwpfile = ExtraItemStorage(hwpfile)
    return hwpfile""", """    if not args.ole:
        hwpfile = Hwp5File(filename)
        return ExtraItemStorage(hwpfile) if args.vstreams else hwpfile
    return OleStorage(filename)"""),
    ('parser helper', PROC, [
        ("    argparser = main_argparser()\n    args = "
         "argparser.parse_args()\n",
         "    argparser, args = None, None\n    argparser = main_argparser()\n"
         "    args = argparser.parse_args()\n")]),
    ('subcommand table', PROC, """    version_argparser(subcommands, _)
    header_argparser(subcommands, _)
""", """    for make in (version_argparser, header_argparser):
        make(subcommands, _)
"""),
    ('guard clauses', RECORDS, """    rng = args.range
    if rng:
        rng = rng.split('-', 1)""", """    rng = args.range
    if rng is not None and rng != '':
        rng = rng.split('-', 1)"""),
    ('values passed on', MODELS, [
        ("""    if args.seqno:
        seqno = int(args.seqno)
""", """    if args.seqno:
        seqno = number(args.seqno)
"""), ("def models_from_args(args):\n", """def number(text):
    return int(text)


def models_from_args(args):
""")]),
    ('optional file', FIND, "    if args.from_stdin:\n",
     "    from_stdin = args.from_stdin\n    if from_stdin:\n"),
    ('dest spelled out', XML, """        '--no-xml-decl',
        action='store_true',""", """        '--no-xml-decl',
        dest='no_xml_decl',
        default=False,
        action='store_true',"""),
    ('table of outputs', DIST, """    if args.sha1:
        head""", """    wanted = 'sha1' if args.sha1 else None
    if wanted == 'sha1':
        head"""),
]
