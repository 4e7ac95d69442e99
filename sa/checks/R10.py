# -*- coding: utf-8 -*-
"""R10 every command reports failure by its exit status."""
import ast
import io
import os
from ..terms import (T, Term, is_const, cval, const, subterms,
                     alternatives)
from ..cases import walk, value
from ..prog import AnalysisError
from ..flow import dominators, dom_chain
from ._util import (short, refine, try_refine, fn_args, names_of_types,
                    ret_values, is_none, returns)

TECHNIQUE = ('exception-flow and exit-path analysis of the command entry '
             'points: every way from a failure handler to the end of the '
             'command must pass an exit with a non-zero status; audit of '
             'every broad handler over document processing and of the '
             'status of every external program')
LEVEL_NOTE = ('What an external converter reports through its own exit '
              'status is trusted; the uno, javax and gsf backends are not '
              'judged.')
EXPLANATION = '''Entry points are read from setup.py and from the functions
the argument parsers bind to subcommands. A handler which catches a failure of
document processing must not reach the normal end of the command: each path
ends in an exception or in an exit with a non-zero constant, and the reason is
logged on the way. Elsewhere in the package no handler that covers document
processing, and none around the yield of a context manager, may complete
normally. The return code of every external program must be looked at and a
non-zero code must not lead to a normal result. No command returns a value
that would become a non-zero status after success, and the conversion call is
passed on every way to the normal end.'''

FAILURES = ('ParseError', 'InvalidHwp5FileError', 'InvalidOleStorageError',
            'ValidationFailed', 'RelaxNGValidationFailed', 'Exception',
            'BaseException', 'CalledProcessError')
COMMON = set(dir(str)) | set(dir(bytes)) | set(dir(dict)) | set(dir(list)) | \
    set(dir(io.BytesIO)) | set(dir(set)) | {'load', 'wait', 'get', 'parse'}
ENGINE = ('hwp5.bintype', 'hwp5.binmodel', 'hwp5.dataio')
FOREIGN = ('hwp5.plat._uno', 'hwp5.plat.jython_poifs', 'hwp5.plat.gir_gsf',
           'hwp5.plat.javax_transform')


def entry_points(ctx):
    """functions named as console scripts in setup.py"""
    path = os.path.join(ctx.prog.repo, 'setup.py') if hasattr(
        ctx.prog, 'repo') else '/repo/setup.py'
    tree = ast.parse(open(path, encoding='utf-8').read())
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            for line in n.value.splitlines():
                if '=' in line and ':' in line and 'hwp5.' in line:
                    name, target = [x.strip() for x in line.split('=', 1)]
                    mod, fn = target.split(':')
                    f = ctx.prog.find_func(mod.strip(), fn.strip())
                    if f is not None:
                        out[name] = f
    return out


def subcommands(ctx):
    """functions bound by set_defaults(func=...)"""
    out = []
    for f, g in ctx.graphs.items():
        for n in g.nodes:
            if n.kind == 'call' and n.fn.op == 'attr' and \
                    n.fn.args[1] == 'set_defaults':
                for k, v in (n.get('kw') or ()):
                    if k == 'func' and v.op == 'func':
                        out.append(v.args[0])
    return out


def commands(ctx):
    out = list(entry_points(ctx).values())
    for f in subcommands(ctx):
        if f not in out:
            out.append(f)
    return [f for f in out if f.module.name != 'hwp5.binspec']


def is_exit(n):
    """(ends the process, status term)"""
    if n.kind == 'call' and n.fn.op == 'ext' and n.fn.args[0] in (
            'sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit'):
        return True, (n.args[0] if n.args else None)
    if n.kind == 'raise':
        e = n.get('exc')
        if e is not None and e.op == 'ext' and \
                e.args[0] == 'builtins.SystemExit':
            return True, None
        fn, a = fn_args(e) if e is not None else (None, ())
        if fn is not None and fn.op == 'ext' and \
                fn.args[0] == 'builtins.SystemExit':
            return True, (a[0] if a else None)
        if e is not None and e.op == 'inst' and 'SystemExit' in short(e):
            a = exit_args(e)
            return True, (a[0] if a else None)
    return False, None


def exit_args(e):
    for x in e.args:
        if isinstance(x, tuple) and all(isinstance(y, Term) for y in x):
            return x
    return ()


def failing(status):
    """the status is known to be non-zero"""
    if status is None:
        return False
    alts = alternatives(status)
    for a in alts:
        if not is_const(a):
            return a.op in ('exc', 'str', 'fmt')
        v = cval(a)
        if v is None or v is False or v == 0:
            return False
    return bool(alts)


def failure_types(h):
    if not h.types:
        return ['everything']
    return [x for x in names_of_types(h.types) if x in FAILURES]


def run(ctx):
    cmds = commands(ctx)
    handlers_rule(ctx, cmds)
    status_rule(ctx, cmds)
    done_rule(ctx, cmds)
    swallow_rule(ctx, cmds)
    program_rule(ctx)
    log_rule(ctx)


def inlined(ctx, f, skip=()):
    def inl(x, w):
        return x not in skip and (x.module is f.module or
                                  x.module.name == 'hwp5.cli') and \
            not x.is_generator
    return ctx.graph(f, inline=inl)


def resolved(g):
    return try_refine(g, extra=lambda n: is_exit(n)[0] or
                      n.kind == 'call' and 'SystemExit' in short(n.fn)) or g


def norm_end(g, start):
    """nodes at which a path from start ends the command with status zero"""
    bad = []
    stops = set()
    exits = []
    for n in g.nodes:
        e, st = is_exit(n)
        if e:
            stops.add(n.id)
            exits.append((n, st))
    seen = walk(g, [start], lambda c: None, stops=stops)
    for x in seen:
        n = g.nodes[x]
        if n.kind == 'exit-return':
            bad.append((n, 'the command ends normally'))
    for n, st in exits:
        if n.id in seen and not failing(st):
            bad.append((n, 'the exit status is %s' % (
                short(st) if st is not None else 'zero')))
    return bad, seen


def logs(n):
    if n.kind == 'raise':
        return True
    if n.kind != 'call':
        return False
    if n.fn.op == 'attr' and n.fn.args[1] in (
            'error', 'exception', 'critical', 'fatal', 'print_to_logger',
            'warning'):
        return True
    if n.fn.op == 'attr' and n.fn.args[1] == 'write' and \
            'stderr' in short(n.fn.args[0]):
        return True
    # sys.exit('message') prints it
    e, st = is_exit(n)
    return bool(e and st is not None and not is_const(st))


def handlers_rule(ctx, cmds):
    R = 'R10.handlers'
    ctx.rule(R, 'every failure a command catches ends it with a non-zero '
             'status and is logged', 4)
    for f in cmds:
        g0 = inlined(ctx, f)
        g = resolved(g0)
        for h in g.nodes:
            if h.kind != 'handler' or not failure_types(h):
                continue
            if not covers_documents(ctx, g, h):
                continue
            what = '%s %s' % (f.fullname, '/'.join(failure_types(h)))
            bad, seen = norm_end(g, h.id)
            ctx.check(not bad, R, what, 'after this failure %s' %
                      (bad and bad[0][1]), ctx.where(h))
            ok = logged(g, h)
            ctx.check(ok, R, what + ' reason', 'the reason of the failure '
                      'is reported nowhere', ctx.where(h))


def logged(g, h):
    """every way from the handler to an end passes a report"""
    st, seen = [h.id], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        n = g.nodes[x]
        if logs(n):
            continue
        if n.kind in ('exit-return',) or is_exit(n)[0]:
            return False
        for y, l in n.succ:
            if l not in ('exc', 'genexit'):
                st.append(y)
    return True


def documents(ctx):
    """functions that may fail on a bad document, by call graph"""
    v = getattr(ctx, '_r10_docs', None)
    if v is None:
        names = ('ParseError', 'InvalidHwp5FileError',
                 'InvalidOleStorageError', 'RelaxNGValidationFailed',
                 'ValidationFailed')
        raisers = set()
        for f, g in ctx.graphs.items():
            for n in g.nodes:
                if n.kind == 'new' and n.cls.name in names:
                    raisers.add(f)
                if n.kind == 'raise' and n.get('exc') is not None and any(
                        x.op == 'class' and
                        getattr(x.args[0], 'name', '') in names
                        for x in subterms(n.exc)):
                    raisers.add(f)
        v = set(raisers) | set(ctx.cg.callers(raisers))
        ctx._r10_docs = v
    return v


def covered(g, h):
    return [n for n in g.nodes for y, l in n.succ
            if l == 'exc' and y == h.id]


def covers_documents(ctx, g, h):
    docs = documents(ctx)
    for n in covered(g, h):
        if n.kind in ('call', 'mkgen', 'property'):
            t = n.get('target')
            if t is not None:
                if t in docs:
                    return True
                continue
            fn = n.get('fn')
            if fn is not None and fn.op in ('ext',):
                continue
            # a call of something passed around: a transformation, the
            # command, a reader
            known = fn is not None and fn.op == 'attr' and \
                ctx.cg.by_name.get(fn.args[1])
            if known and not any(x in docs for x in known):
                continue
            return True
        if n.kind == 'new':
            out = set()
            ctx.cg.ctor(n.cls, out)
            if out & docs:
                return True
        if n.kind in ('next', 'yield'):
            return True
    return False


def status_rule(ctx, cmds):
    R = 'R10.status'
    ctx.rule(R, 'a command that succeeded returns no failing status', 10)
    for f in cmds:
        g = ctx.graphs[f]
        for n in g.nodes:
            if n.kind != 'return':
                continue
            v = n.value
            ok = v is None or is_none(v) or (is_const(v) and
                                             cval(v) in (0, False, None))
            if not ok:
                # handing on the value of a command that is checked itself
                fn, a = fn_args(v)
                ok = dispatch(ctx, f, fn, v)
            ctx.check(ok, R, f.fullname + ' returns', 'the value %s becomes '
                      'the exit status' % short(v), ctx.where(n))
        for n in g.nodes:
            e, st = is_exit(n)
            if e and st is not None and not is_const(st):
                ctx.ok(R, f.fullname + ' exit')
        if not any(n.kind == 'return' for n in g.nodes):
            ctx.ok(R, f.fullname)


def dispatch(ctx, f, fn, v):
    """the value is that of a bound subcommand"""
    if fn is None:
        return False
    if fn.op == 'func':
        g = ctx.graphs.get(fn.args[0])
        return g is not None and all(
            x is None or is_none(x) or (is_const(x) and
                                        cval(x) in (0, False, None))
            for x in (n.value for n in g.nodes if n.kind == 'return'))
    s = short(fn)
    return any(x.op == 'attr' and x.args[1] == 'func' for x in subterms(fn)) \
        or 'func' in s


def done_rule(ctx, cmds):
    R = 'R10.done'
    ctx.rule(R, 'a command ends normally only after it did what it was '
             'asked for', 4)
    eps = entry_points(ctx)
    for name, f in eps.items():
        if f.module.name in ('hwp5.binspec', 'hwp5.hwp5view'):
            continue
        g0 = inlined(ctx, f)
        g = resolved(g0)
        work = set()
        for n in g.nodes:
            if n.kind != 'call':
                continue
            if name == 'hwp5proc':
                if n.args and any(x.op == 'attr' and x.args[1] == 'func'
                                  for x in subterms(n.fn)):
                    work.add(n.id)
            elif document_arg(ctx, n) and len(n.args) >= 2:
                work.add(n.id)
        if not work:
            ctx.bad(R, f.fullname, 'nothing is done with the document')
            continue
        stops = set(work) | {n.id for n in g.nodes
                             if is_exit(n)[0] or n.kind == 'handler'}
        seen = walk(g, [0], lambda c: None, stops=stops)
        ends = [g.nodes[x] for x in seen if g.nodes[x].kind == 'exit-return']
        ctx.check(not ends, R, f.fullname, 'ends without having converted '
                  'the document', ends and ctx.where(ends[0]))
        if name == 'hwp5proc':
            # without a subcommand the status is a failure
            hs = [n for n in g.nodes if n.kind == 'handler' and
                  'AttributeError' in names_of_types(n.types)]
            for h in hs:
                bad, _ = norm_end(g, h.id)
                ctx.check(not bad, R, f.fullname + ' no command',
                          'a call without a command succeeds',
                          ctx.where(h))


def document_arg(ctx, n):
    for a in n.args:
        for x in alternatives(a):
            if x.op == 'inst' and 'Hwp5File' in short(x, 400) or x.op in ('entered', 'res') and \
                    'Hwp5File' in short(x, 400):
                return True
    return False


def swallow_rule(ctx, cmds):
    R = 'R10.swallow'
    ctx.rule(R, 'no handler that covers document processing, and none '
             'around the body of a context manager, completes normally', 1)
    seen_cmd = set(cmds)
    for f, g in ctx.graphs.items():
        if not f.module.name.startswith('hwp5') or \
                f.module.name in ENGINE + FOREIGN or f in seen_cmd or \
                f.module.name.startswith('hwp5.plat._uno'):
            continue
        cm = f.is_generator and is_contextmanager(f)
        for h in g.nodes:
            if h.kind != 'handler':
                continue
            around = cm and any(n.kind == 'yield' for n in covered(g, h))
            kinds = failure_types(h)
            if not around and (not kinds or not processes(ctx, g, h)):
                continue
            if around and not kinds and not {'IOError', 'OSError', 'error',
                                             'EnvironmentError'} & set(
                    names_of_types(h.types)):
                continue
            refused = convert_ok(f, h)
            stops = {n.id for n in g.nodes if is_exit(n)[0]}
            seen = walk(g, [h.id], not_epipe, stops=stops)
            ends = [g.nodes[x] for x in seen
                    if g.nodes[x].kind in ('exit-return', 'yield')]
            no = answers_no(g, seen) if ends else []
            if ends and (refused or no and all(
                    heeded(ctx, f, v, set()) for v in no)):
                continue
            ctx.check(not ends, R, '%s %s' % (f.fullname, '/'.join(
                kinds or names_of_types(h.types))), 'the failure is '
                'swallowed', ctx.where(h))


def is_contextmanager(f):
    for d in f.node.decorator_list:
        if 'contextmanager' in ast.dump(d):
            return True
    return False


def not_epipe(c):
    """the error is not the reader going away"""
    if c.op == 'cmp':
        op, a, b = c.args
        if any(x.op == 'ext' and x.args[0].endswith('EPIPE')
               for y in (a, b) for x in subterms(y)) or \
                'EPIPE' in short(c, 400):
            return {'==': False, '!=': True, 'is': False, 'is not': True,
                    'in': False, 'not in': True}.get(op)
    return None


def documents_surely(ctx):
    """functions that process documents, by resolved calls and by method
    names which files, strings and containers do not have"""
    v = getattr(ctx, '_r10_sure', None)
    if v is not None:
        return v
    names = ('ParseError', 'InvalidHwp5FileError', 'InvalidOleStorageError',
             'RelaxNGValidationFailed', 'ValidationFailed')
    v = set()
    edges = {}
    for f, g in ctx.graphs.items():
        es = edges[f] = []
        for n in g.nodes:
            t = n.get('target')
            if t is not None and n.kind in ('call', 'mkgen', 'property'):
                es.append({t})
            elif n.kind == 'call' and n.fn.op == 'attr':
                if n.fn.args[1] not in COMMON:
                    es.extend({x} for x in
                              ctx.cg.by_name.get(n.fn.args[1], ()))
            for x in n.d.values():
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, Term):
                        es.extend({z.args[0]} for z in subterms(y)
                                  if z.op == 'gencall')
            if n.kind == 'new':
                if n.cls.name in names:
                    v.add(f)
                out = set()
                ctx.cg.ctor(n.cls, out)
                if out:
                    es.append(out)
            if n.kind == 'raise' and n.get('exc') is not None and any(
                    x.op == 'class' and
                    getattr(x.args[0], 'name', '') in names
                    for x in subterms(n.exc)):
                v.add(f)
    changed = True
    while changed:
        changed = False
        for f, es in edges.items():
            if f not in v and any(e <= v for e in es):
                v.add(f)
                changed = True
    ctx._r10_sure = v
    return v


def processes(ctx, g, h):
    """a function of the package that may fail on the document is called
    under the handler"""
    docs = documents_surely(ctx)
    for n in covered(g, h):
        t = n.get('target')
        if n.kind in ('call', 'mkgen', 'property') and t is not None and \
                t in docs:
            return True
        if n.kind == 'call' and t is None and n.fn.op == 'attr' and \
                n.fn.args[1] not in COMMON and any(
                    x in docs for x in ctx.cg.by_name.get(n.fn.args[1], ())):
            return True
        if n.kind == 'new':
            out = set()
            ctx.cg.ctor(n.cls, out)
            if out & docs:
                return True
    return False


def convert_ok(f, h):
    """testing whether a file is an OLE storage is a question, answered by
    False"""
    return names_of_types(h.types or ()) == ['InvalidOleStorageError']


def answers_no(g, seen):
    """the empty constants (False, None, ...) one of which is the answer
    whenever something is returned in these nodes, else none"""
    rs = [r for r in returns(g) if r.id in seen]
    if any(g.nodes[x].kind == 'yield' for x in seen):
        return []
    vs = [v for r in rs for v in alternatives(r.value)]
    if not all(is_const(v) and not cval(v) for v in vs):
        return []
    if any(cval(v) is None for v in vs) and not tells(g):
        return []
    return list({v: 1 for v in vs})


def tells(g):
    """some answer of the function is not None: None means something"""
    return any(not (is_const(v) and cval(v) is None) for r in returns(g)
               for v in alternatives(r.value))


def answered(r, v):
    """valuation of conditions on the answer r, which is the constant v"""
    k = cval(v)

    def ev(c):
        if c is r:
            return bool(k)
        if c.op == 'cmp' and (c.args[1] is r or c.args[2] is r):
            o = c.args[2] if c.args[1] is r else c.args[1]
            if is_const(o):
                x = cval(o)
                same = type(x) is type(k) and x == k
                if c.args[0] in ('is', '=='):
                    return same if same or c.args[0] == '==' else None \
                        if type(x) is type(k) else False
                if c.args[0] in ('is not', '!='):
                    return not same
        return None
    return ev


def said(t, r, v, ev):
    """the constants a term can be, or None"""
    if t is r:
        return [v]
    if t.op == 'ite':
        c = value(t.args[0], ev)
        out = []
        for pick, x in ((True, t.args[1]), (False, t.args[2])):
            if c is None or c is pick:
                y = said(x, r, v, ev)
                if y is None:
                    return None
                out += y
        return out
    if t.op == 'phi':
        out = []
        for x in alternatives(t):
            y = said(x, r, v, ev)
            if y is None:
                return None
            out += y
        return out
    if is_const(t):
        return [t]
    c = value(t, ev) if t.op in ('cmp', 'not', 'and', 'or') else None
    return None if c is None else [const(c)]


def heeded(ctx, f, v, done):
    """every caller of f fails, or answers with an empty constant itself,
    when the answer of f is the empty constant v"""
    if (f, v) in done:
        return True
    done.add((f, v))
    for c in ctx.cg.pred.get(f, ()):
        g = ctx.graphs[c]
        calls = [n for n in g.nodes if n.kind == 'call' and
                 n.get('target') is f]
        if not calls:
            return False
        for n in calls:
            r = n.result
            ev = answered(r, v)
            seen = walk(g, [n.id], ev, skip=('exc', 'genexit'))
            answers = {}
            for x in returns(g):
                if x.id not in seen:
                    continue
                vs = said(x.value, r, v, ev)
                if vs is None or any(cval(y) for y in vs):
                    return False
                answers.update((y, 1) for y in vs)
            if any(cval(y) is None for y in answers) and not tells(g):
                return False
            if not all(heeded(ctx, c, y, done) for y in answers):
                return False
    return True


def program_rule(ctx):
    R = 'R10.program'
    ctx.rule(R, 'a failing external program does not count as success', 4)
    for f, g in ctx.graphs.items():
        if not f.module.name.startswith('hwp5') or \
                f.module.name.startswith(FOREIGN):
            continue
        for n in g.nodes:
            if n.kind != 'call' or n.fn.op != 'ext':
                continue
            name = n.fn.args[0]
            if name == 'subprocess.call' or name == 'os.system' or \
                    name == 'subprocess.run' and not any(
                        k == 'check' and cval(v) is True
                        for k, v in n.get('kw') or ()):
                def code_of(t):
                    return t is n.result or part_of(t, n.result)
            elif name == 'subprocess.Popen':
                def code_of(t):
                    return part_of(t, n.result)
            else:
                continue
            stops = {m.id for m in g.nodes if is_exit(m)[0] or
                     m.kind == 'handler'}
            ends = []
            for code in CODES:
                ev = nonzero(code_of, code=code)
                for x in walk(g, [n.id], ev, stops=stops):
                    m = g.nodes[x]
                    if m.kind == 'exit-return' and not (
                            m.get('value') is not None and
                            says_failed(m.value, ev)):
                        ends.append(code)
            ctx.check(not ends, R, '%s %s' % (f.fullname, name), 'a program '
                      'failing with the status %s ends in a normal result' %
                      ends[:1], ctx.where(n))
    output_filters(ctx)


def output_filters(ctx):
    """what the requested output is piped through"""
    R = 'R10.program'
    f = ctx.need_func('hwp5.utils', 'wrap_open_dest')
    for u, g in ctx.graphs.items():
        for n in g.nodes:
            if n.kind != 'call' or n.get('target') is not f or \
                    len(n.args) < 2:
                continue
            for lst in leaves(n.args[1]):
                for x in lst.args if lst.op in ('list', 'tuple') else ():
                    fn, a = fn_args(x)
                    if fn is None or fn.op != 'func':
                        continue
                    text = call_text(x, fn)
                    if text is None:
                        continue
                    q = ctx.query('from %s import %s\n'
                                  'def q(out):\n'
                                  '    with %s(out) as f:\n'
                                  '        f.write(b"")\n' % (
                                      fn.args[0].module.name,
                                      fn.args[0].name, text))
                    ps = [m for m in q.nodes if m.kind == 'call' and
                          m.fn.op == 'ext' and
                          m.fn.args[0] == 'subprocess.Popen']
                    for p in ps:
                        stops = {m.id for m in q.nodes
                                 if m.kind == 'handler'}
                        end = [code for code in CODES if any(
                            q.nodes[y].kind == 'exit-return'
                            for y in walk(q, [p.id], nonzero(
                                lambda t: part_of(t, p.result), False, code),
                                stops=stops))]
                        ctx.check(not end, R, '%s through %s' % (
                            u.fullname, text), 'a filter failing with the '
                            'status %s ends in a normal result' % end[:1],
                            ctx.where(n))


def leaves(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if x.op == 'ite':
            st.extend(x.args[1:])
        elif x.op == 'phi':
            st.extend(alternatives(x))
        else:
            out.append(x)
    return out


def call_text(x, fn):
    """the call as source text, if its arguments are constants"""
    args = [repr(cval(a)) for a in x.args[2 if x.op == 'res' else 1]
            if is_const(a)]
    rest = x.args[3 if x.op == 'res' else 2]
    kw = []
    for k in rest if isinstance(rest, tuple) else ():
        if isinstance(k, tuple) and len(k) == 2 and \
                isinstance(k[1], Term) and is_const(k[1]):
            kw.append('%s=%r' % (k[0], cval(k[1])))
    return '%s(%s)' % (fn.args[0].name, ', '.join(args + kw))


def part_of(t, p):
    """p.returncode, p.wait(), p.poll()"""
    if t.op == 'attr' and t.args[0] is p and t.args[1] == 'returncode':
        return True
    fn, a = fn_args(t)
    return fn is not None and fn.op == 'attr' and fn.args[0] is p and \
        fn.args[1] in ('wait', 'poll')


CODES = (1, 255, -9, -11)       # statuses of failures, numbers of signals


def nonzero(is_code, switches=True, code=1):
    """valuation: the return code is that of a failure; switches which ask
    for checking are on"""
    def number(t):
        if is_const(t) and isinstance(cval(t), (int, bool, type(None))):
            return True
        return False

    def ev(c):
        if is_code(c):
            return bool(code)
        if c.op == 'cmp':
            op, a, b = c.args
            if is_code(b):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if is_code(a) and number(b):
                v = cval(b)
                if v is None:
                    return op in ('is not', '!=')
                return {'==': code == v, 'is': code == v, '!=': code != v,
                        'is not': code != v, '<': code < v, '>': code > v,
                        '<=': code <= v, '>=': code >= v}.get(op)
            if is_code(a) and op in ('in', 'not in') and \
                    b.op in ('tuple', 'list', 'set'):
                xs = b.args
                if len(xs) == 1 and isinstance(xs[0], tuple):
                    xs = xs[0]
                # what is no number here is a signal of another number
                hit = any(number(x) and cval(x) == code for x in xs)
                return hit if op == 'in' else not hit
            if is_code(a) and op in ('==', '!=') and any(
                    x.op == 'ext' and str(x.args[0]).startswith('signal.')
                    for x in subterms(b)):
                return op == '!='
        if switches and c.op == 'sym':
            return True
        return None
    return ev


def says_failed(v, ev):
    """the value answers the question whether it worked"""
    for a in alternatives(v):
        if a.op == 'ite':
            r = ev(a.args[0])
            a = a.args[1] if r else a.args[2]
        if is_const(a) and cval(a) in (False, None) and cval(a) is not None:
            continue
        if a.op in ('cmp', 'not', 'bool') and ev_value(a, ev) is False:
            continue
        fn, args = fn_args(a)
        if fn is not None and fn.op == 'ext' and \
                fn.args[0] == 'builtins.bool' and args and \
                ev_value(args[0], ev) is False:
            continue
        return False
    return True


def ev_value(t, ev):
    from ..cases import value
    return value(t, ev)


def log_rule(ctx):
    R = 'R10.log'
    ctx.rule(R, 'every command sets up the log before it starts, and the '
             'log always reaches a file or standard error', 4)
    f = ctx.need_func('hwp5.cli', 'init_logger')
    for name, m in entry_points(ctx).items():
        if m.module.name == 'hwp5.binspec':
            continue
        g = ctx.graph(m, inline=lambda x, w: x.module is m.module)
        calls = {n.id for n in g.nodes if n.kind == 'call' and
                 n.get('target') is f}
        seen = walk(g, [0], lambda c: None, stops=calls)
        early = [g.nodes[x] for x in seen
                 if g.nodes[x].kind in ('exit-return', 'handler') or
                 g.nodes[x].kind == 'new' and
                 g.nodes[x].cls.name == 'Hwp5File']
        ctx.check(calls and not early, R, m.fullname, 'works without a log',
                  early and ctx.where(early[0]) or None)
    g = ctx.graph(f, inline=lambda x, w: x.module is f.module)
    add = {n.id for n in g.nodes if n.kind == 'call' and n.fn.op == 'attr'
           and n.fn.args[1] == 'addHandler'}
    seen = walk(g, [0], lambda c: None, stops=add)
    ctx.check(not any(g.nodes[x].kind == 'exit-return' for x in seen), R,
              f.fullname + ' handler', 'may leave the log without a handler')
    for x in add:
        n = g.nodes[x]
        for a in alternatives(n.args[0]):
            fn, args = fn_args(a)
            ok = fn is not None and fn.op == 'ext' and (
                fn.args[0].endswith('FileHandler') or
                fn.args[0].endswith('StreamHandler') and
                (not args or 'stderr' in short(args[0])))
            if ok and fn.args[0].endswith('StreamHandler'):
                call = [m for m in g.nodes if m.kind == 'call' and
                        m.get('result') is a]
                ok = all('stdout' not in short(v) for m in call
                         for k, v in m.get('kw') or ())
            ctx.check(ok, R, f.fullname + ' target', 'the log is written to '
                      '%s' % short(a), ctx.where(n))


witnesses = [
    ('killed filter', 'hwp5/utils.py',
     "retcode not in (0, -getattr(signal, 'SIGPIPE', 0))", "retcode > 0"),
    ('filter', 'hwp5/proc/xml.py', 'xmllint(c14n=True, check=True)',
     'xmllint(c14n=True)'),
    ('noexit', 'hwp5/hwp5odt.py', """        e.print_to_logger(logger)
        sys.exit(1)
""", """        e.print_to_logger(logger)
"""),
    ('zero', 'hwp5/hwp5html.py', """        logger.error('%s', e)
        sys.exit(1)
""", """        logger.error('%s', e)
        sys.exit(0)
"""),
    ('noarg', 'hwp5/hwp5txt.py', """        logger.error('%s', e)
        sys.exit(1)
""", """        logger.error('%s', e)
        sys.exit()
"""),
    ('silent', 'hwp5/hwp5txt.py', """        e.print_to_logger(logger)
        sys.exit(1)
""", """        sys.exit(1)
"""),
    ('procraise', 'hwp5/hwp5proc.py', """        e.print_to_logger(logger)
        raise SystemExit(1)
""", """        e.print_to_logger(logger)
        raise SystemExit
"""),
    ('find', 'hwp5/proc/find.py', '            failed = True\n', ''),
    ('findlast', 'hwp5/proc/find.py', [(
        '            for model in models:\n',
        '            failed = False\n            for model in models:\n')]),
    ('xsltproc', 'hwp5/plat/xsltproc.py', """        p = Popen(cmd, stdout=output)
        p.wait()
        if p.returncode == 0:
            return dict()
        else:
            raise CalledProcessError(p.returncode, cmd)
""", """        p = Popen(cmd, stdout=output)
        p.wait()
        return dict()
"""),
    ('xmllint', 'hwp5/plat/xmllint.py', """            if p.returncode != 0:
                raise Exception('RelaxNG validation failed')
""", """            if p.returncode != 0:
                logger.error('RelaxNG validation failed')
"""),
    ('relaxng', 'hwp5/plat/xmllint.py', 'return p.returncode == 0',
     'return p.returncode is not None'),
    ('swallowcm', 'hwp5/utils.py', """                if e.errno != errno.EPIPE:
                    raise
""", """                logger.debug('%s', e)
"""),
    ('swallow', 'hwp5/transforms/__init__.py', """            with self.transformed_xhwp5_at_temp(hwp5file) as xhwp5path:
                return transform_xhwp5(xhwp5path, output)
""", """            try:
                with self.transformed_xhwp5_at_temp(hwp5file) as xhwp5path:
                    return transform_xhwp5(xhwp5path, output)
            except Exception as e:
                logger.exception(e)
"""),
    ('retval', 'hwp5/proc/ls.py', '        printstorage(hwpfile)\n',
     '        printstorage(hwpfile)\n        return len(list(hwpfile))\n'),
    ('nosub', 'hwp5/hwp5proc.py', """        argparser.print_help()
        raise SystemExit(1)
""", """        argparser.print_help()
        raise SystemExit(0)
"""),
    ('skipped', 'hwp5/hwp5txt.py', """            with open_dest() as dest:
                transform(hwp5file, dest)
""", """            if hwp5file.fileheader.version >= (5, 0, 0, 0):
                with open_dest() as dest:
                    transform(hwp5file, dest)
"""),
    ('stdout', 'hwp5/cli.py', 'handler = logging.StreamHandler()',
     'handler = logging.StreamHandler(sys.stdout)'),
]
benign = [
    ('status of the filter', 'hwp5/utils.py',
     "if check and retcode not in (0, -getattr(signal, 'SIGPIPE', 0)):",
     "if check and retcode != 0:"),
    ('systemexit', 'hwp5/hwp5odt.py', """        e.print_to_logger(logger)
        sys.exit(1)
""", """        e.print_to_logger(logger)
        raise SystemExit(2)
"""),
    ('helper', 'hwp5/hwp5txt.py', [("""        e.print_to_logger(logger)
        sys.exit(1)
    except InvalidHwp5FileError as e:
        logger.error('%s', e)
        sys.exit(1)
""", """        fail(e.print_to_logger, logger)
    except InvalidHwp5FileError as e:
        fail(logger.error, '%s', e)


def fail(report, *args):
    report(*args)
    sys.exit(1)
""")]),
    ('count', 'hwp5/proc/find.py', [
        ('    failed = False\n', '    status = 0\n'),
        ('            failed = True\n', '            status = 1\n'),
        ('    if failed:\n        sys.exit(1)\n',
         '    if status:\n        sys.exit(status)\n')]),
    ('wait', 'hwp5/plat/xsltproc.py', """        p = Popen(cmd, stdout=output)
        p.wait()
        if p.returncode == 0:
            return dict()
        else:
            raise CalledProcessError(p.returncode, cmd)
""", """        p = Popen(cmd, stdout=output)
        returncode = p.wait()
        if returncode:
            raise CalledProcessError(returncode, cmd)
        return dict()
"""),
    ('both', 'hwp5/hwp5html.py', """    except ParseError as e:
        e.print_to_logger(logger)
        sys.exit(1)
    except InvalidHwp5FileError as e:
        logger.error('%s', e)
        sys.exit(1)
""", """    except (ParseError, InvalidHwp5FileError) as e:
        if isinstance(e, ParseError):
            e.print_to_logger(logger)
        else:
            logger.error('%s', e)
        sys.exit(1)
"""),
]
