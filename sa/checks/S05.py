# -*- coding: utf-8 -*-
"""S05 all storages honour one container protocol."""
import ast

from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..iters import iterations, natural, nodes_on, feasible
from ._util import short, fn_args

TECHNIQUE = ('value-flow analysis of __iter__, __getitem__ and open() of '
             'every storage and stream class: the names delivered are '
             'compared with the names of the storage that is wrapped, the '
             'names looked up with the name asked for, and every way out of '
             'a lookup has to carry the item or to raise KeyError')
LEVEL_NOTE = ('The behaviour of the libraries behind the backends is taken '
              'from their documentation: olefile lists streams only unless '
              'it is asked for storages, and splits paths given as text at '
              'slashes. Documents whose items are of the wrong kind (a '
              'stream where a storage should be) are not considered.')
EXPLANATION = '''The flow graph of a loop over C.__iter__() shows which names a
storage delivers: for wrappers every name of the wrapped storage exactly once,
and additional names only if the lookup finds them by the same expression. The
flow graph of C.__getitem__(name) shows what is looked up and what comes back.
Streams are opened anew by every call of open() and handed out at their
beginning.'''

STORAGES = ('BodyText', 'ViewText', 'BinData', 'Scripts', 'DocOptions',
            'XMLTemplate', 'DocHistory', 'Bibliography')
STREAMS = ('FileHeader', 'DocInfo', 'PrvText', 'PrvImage',
           '\x05HwpSummaryInformation')
NORMAL = ('exc', 'genexit')


def run(ctx):
    ctx.rule('S05.names', 'wrappers deliver the names of what they wrap', 3)
    ctx.rule('S05.lookup', 'lookups return the item asked for or raise '
             'KeyError', 4)
    ctx.rule('S05.extra', 'additional names are found', 1)
    ctx.rule('S05.backend', 'backends find and deliver all items', 2)
    ctx.rule('S05.kind', 'storages stay storages, streams stay streams', 1)
    ctx.rule('S05.reopen', 'streams are opened anew, at their beginning', 3)
    stgs = storages(ctx)
    for c in stgs:
        storage(ctx, c)
    for c in stgs:
        kinds(ctx, c)
    streams(ctx, set(stgs))
    buffers(ctx)


def storages(ctx):
    out = []
    for c in sorted(all_classes(ctx), key=lambda c: (c.module.name, c.name)):
        if '.' in c.name:
            continue
        if ctx.prog.method(c, '__iter__') and \
                ctx.prog.method(c, '__getitem__'):
            out.append(c)
    return out


def all_classes(ctx):
    cs = ctx.prog.classes
    return cs.values() if isinstance(cs, dict) else cs


def inst(c, name):
    return T('inst', c, name)


def name_of(c):
    return '%s.%s' % (c.module.name.replace('hwp5.', ''), c.name)


def attr_of(t, s):
    """attribute of the storage object that a term is taken from"""
    while True:
        if t.op == 'attr' and t.args[0] is s:
            return t.args[1]
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                '__iter__', 'keys', '__getitem__') and \
                fn.args[0].op == 'attr' and fn.args[0].args[0] is s:
            return fn.args[0].args[1]
        if fn is not None and fn.op in ('ext', 'builtin', 'func') and \
                len(args) == 1 and fn.args[0] in (
                    'iter', 'list', 'tuple', 'sorted', 'builtins.iter'):
            t = args[0]
            continue
        return None


def lookups(g, s):
    """(node, attribute, key, result) of lookups in what the storage wraps"""
    out = []
    for n in g.nodes:
        if n.kind == 'getitem' and n.obj.op == 'attr' and \
                n.obj.args[0] is s:
            out.append((n, n.obj.args[1], n.key, T('sub', n.obj, n.key)))
        elif n.kind == 'call' and n.get('fn') is not None and \
                n.fn.op == 'attr' and n.fn.args[1] in ('__getitem__',) and \
                n.args and n.fn.args[0].op == 'attr' and \
                n.fn.args[0].args[0] is s:
            out.append((n, n.fn.args[0].args[1], n.args[0], n.get('result')))
    return out


def storage(ctx, c):
    s = inst(c, 'stg')
    mod, cn = c.module.name, c.name
    name = T('sym', 'name')
    try:
        gi = ctx.query('from %s import %s as C\ndef q(stg):\n'
                       '    for n in C.__iter__(stg):\n        sink(n)\n'
                       % (mod, cn), args={'stg': s})
        gg = ctx.query('from %s import %s as C\ndef q(stg, name):\n'
                       '    return C.__getitem__(stg, name)\n' % (mod, cn),
                       args={'stg': s})
    except Exception:
        return
    ls = lookups(gg, s)
    inner = {a for n, a, k, r in ls}
    it = {attr_of(n.iter, s) for n in gi.nodes if n.kind == 'next'} - {None}
    both = inner & it
    lookup(ctx, c, gg, s, name, ls, both)
    if both:
        wrapper(ctx, c, gi, gg, s, name, sorted(both)[0])
    else:
        backend(ctx, c, gi, gg, s, name)


# names ----------------------------------------------------------------------
def sinks(g):
    return [n for n in g.nodes if n.kind == 'call' and
            n.get('fn') is not None and n.fn.op == 'undef' and
            n.fn.args[-1] == 'sink']


def wrapper(ctx, c, g, gg, s, name, a):
    key = name_of(c)
    inner = T('attr', s, a)
    heads = [n for n in g.nodes if n.kind == 'loop' and
             attr_of(n.get('iter'), s) == a]
    emits = sinks(g)
    where = ctx.where(heads[0]) if heads else name_of(c)
    if not heads:
        return
    plain, extra = set(), []
    for n in emits:
        v = n.args[0]
        if is_name(v, s, a):
            plain.add(n.id)
        elif v.op == 'elem' and v.args[0].op == 'comp':
            # built by a comprehension over the names
            e = v.args[0].args[1]
            e = e[0] if isinstance(e, tuple) else e
            h = heads[0]
            body = natural(g, h.id)
            br = [g.nodes[x] for x in body if g.nodes[x].kind == 'branch']
            if not is_name(e, s, a):
                extra.append((n, e))
            if br:
                ctx.bad('S05.names', key, 'names of the wrapped storage may '
                        'be left out: only if %s' % short(br[0].cond),
                        ctx.where(br[0]))
            else:
                ctx.ok('S05.names', key)
            return
        else:
            extra.append((n, v))
    if not plain:
        if all(x[1].op in ('elem', 'phi', 'top', 'loopvar') for x in extra):
            return
        ctx.bad('S05.names', key, 'the names of the wrapped storage are not '
                'delivered', where)
        return
    ok = True
    mine = [h for h in heads if any(x in natural(g, h.id) for x in plain)]
    for h in mine[:1]:
        back, out = iterations(g, h.id)
        for p in back or ():
            k = sum(1 for n in nodes_on(g, p) if n.id in plain)
            if k != 1 and feasible(g, p):
                ctx.bad('S05.names', key, 'a name of the wrapped storage may '
                        'be %s' % ('left out' if not k else
                                   'delivered twice'), ctx.where(h))
                ok = False
                break
        for p in out or ():
            if any(g.nodes[x].kind == 'next' and l == 'T' and
                   attr_of(g.nodes[x].iter, s) == a for x, l, y in p) and \
                    feasible(g, p):
                ctx.bad('S05.names', key, 'the names after some may be left '
                        'out', ctx.where(h))
                ok = False
                break
        if ok and around(g, h.id):
            ctx.bad('S05.names', key, 'the names of the wrapped storage may '
                    'not be delivered at all', ctx.where(h))
            ok = False
    if ok:
        ctx.ok('S05.names', key)
    for n, v in extra:
        found(ctx, c, gg, s, name, a, n, v)


def around(g, h):
    """the end is reached without the loop"""
    seen, st = set(), [g.entry]
    while st:
        x = st.pop()
        if x in seen or x == h:
            continue
        seen.add(x)
        if g.nodes[x].kind == 'exit-return':
            return True
        st.extend(y for y, l in g.nodes[x].succ if l not in NORMAL)
    return False


def is_name(v, s, a):
    return v.op == 'elem' and attr_of(v.args[0], s) == a


def canon(t, s, a, memo=None):
    """expression of a name, with the loops abstracted"""
    if isinstance(t, tuple):
        return tuple(canon(x, s, a) for x in t)
    if not isinstance(t, Term):
        return t
    if t.op == 'elem':
        if attr_of(t.args[0], s) == a:
            return T('root')
        fn, args = fn_args(t.args[0])
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'items':
            return T('pair', canon(fn.args[0], s, a))
        if fn is not None and fn.op == 'attr' and fn.args[1] == 'keys':
            return T('key', canon(fn.args[0], s, a))
        return T('key', canon(t.args[0], s, a))
    if t.op == 'item':
        b = canon(t.args[0], s, a)
        i = t.args[1] if not isinstance(t.args[1], Term) else cval(t.args[1])
        if b.op == 'pair':
            return T('key', b.args[0]) if i == 0 else T('val', b.args[0])
        return T('item', b, i)
    if t.op == 'res':
        fn, args = fn_args(t)
        return T('call', canon(fn, s, a) if isinstance(fn, Term) else fn,
                 *[canon(x, s, a) for x in args])
    return T(t.op, *[canon(x, s, a) for x in t.args])


def found(ctx, c, gg, s, name, a, n, v):
    """the lookup compares the name with the same expression"""
    key = '%s: %s' % (name_of(c), short(v, 50))
    want = canon(v, s, a)
    keys = []
    for x in gg.nodes:
        if x.kind != 'branch' or x.get('cond') is None:
            continue
        for t in subterms(x.cond):
            if t.op == 'cmp' and t.args[0] in ('==', '!='):
                l, r = t.args[1], t.args[2]
                for p, q in ((l, r), (r, l)):
                    if q is name:
                        keys.append((canon(p, s, a), p))
    if any(k is want for k, p in keys):
        ctx.ok('S05.extra', key)
    elif keys:
        ctx.bad('S05.extra', key, 'the name %s is delivered, but lookups '
                'compare with %s' % (short(v, 60), short(keys[0][1], 60)),
                ctx.where(n))
    else:
        cond = [t for x in gg.nodes if x.kind == 'branch'
                for t in subterms(x.cond) if t is name]
        if cond and partial(gg, name):
            ctx.bad('S05.extra', key, 'the name %s is delivered, but lookups '
                    'compare only a part of the name' % short(v, 60),
                    ctx.where(n))
            return
        if not cond and not [x for x in lookups(gg, s)
                             if x[2] is not name]:
            ctx.bad('S05.extra', key, 'the name %s is delivered, but is not '
                    'looked up' % short(v, 60), ctx.where(n))


def partial(g, name):
    """is the name asked for only compared by a beginning or an end of it"""
    some = False

    def uses(t):
        """how the term depends on the name"""
        nonlocal some
        if t is name:
            return True
        if not isinstance(t, Term):
            return isinstance(t, (tuple, list)) and any(uses(x) for x in t)
        if t.op == 'sub' and t.args[1] is name:
            return uses(t.args[0])      # the item of that name
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[0] is name and \
                fn.args[1] in ('startswith', 'endswith') and \
                not any(uses(x) for x in args):
            some = True
            return False
        if t.op == 'cmp' and t.args[0] in ('in', 'not in') and \
                t.args[2] is name and not uses(t.args[1]):
            some = True
            return False
        return any(uses(x) for x in t.args)
    for n in g.nodes:
        if n.kind == 'branch' and uses(n.cond):
            return False
        if n.kind in ('getitem', 'new') and any(
                uses(x) and x is not name for x in node_terms(n)
                if x.op != 'exc'):
            return False
    return some


# lookups --------------------------------------------------------------------
def lookup(ctx, c, g, s, name, ls, both):
    key = name_of(c)
    news = {n.result: n for n in g.nodes
            if n.kind == 'new' and n.get('result') is not None}
    bad = None
    main = [(n, a, k, r) for n, a, k, r in ls if k is name]
    for n, a, k, r in ls:
        if a in both and k is not name and name in set(subterms(k)) and \
                not main:
            bad = ('looks up %s instead of the name asked for' % short(k), n)
    # values
    for n in g.nodes:
        if n.kind != 'exit-return':
            continue
        for v in alternatives(n.value):
            if is_const(v) and cval(v) is None and never_none(g, c):
                continue
            if is_const(v):
                bad = bad or ('may return %r instead of raising KeyError'
                              % (cval(v),), n)
            elif v.op == 'unbound':
                bad = bad or ('may return nothing', n)
            elif both and main:
                if not carried(v, news, s, name, 0):
                    bad = bad or ('returns %s, which is not made of the item'
                                  % short(v), n)
    for n in g.nodes:
        if n.kind == 'raise' and n.func is not None and \
                n.get('exc') is not None and lookup_code(n, c):
            e = n.exc
            t = exc_name(e)
            if t is not None and t not in ('KeyError', 'IndexError',
                                           'LookupError'):
                bad = bad or ('raises %s instead of KeyError' % t, n)
    if bad:
        ctx.bad('S05.lookup', key, 'a lookup ' + bad[0], ctx.where(bad[1]))
    else:
        ctx.ok('S05.lookup', key)


def never_none(g, c):
    """every None among the values returned is ruled out by a test"""
    from ..flow import facts_at
    rs = [n for n in g.nodes if n.kind == 'return' and
          lookup_code(n, c) and n.get('value') is not None]
    some = False
    for n in rs:
        vs = [v for v in alternatives(n.value)
              if is_const(v) and cval(v) is None]
        if not vs:
            continue
        some = True
        tested = set()
        for cd, pol, d in facts_at(g, n.id):
            if cd.op == 'cmp' and is_const(cd.args[2]) and \
                    cval(cd.args[2]) is None and (
                        cd.args[0] in ('is not', '!=') and pol or
                        cd.args[0] in ('is', '==') and not pol):
                tested.add(cd.args[1])
            elif pol:
                tested.add(cd)
        if not tested & (set(subterms(n.value)) | {n.value}):
            return False
    return some


def lookup_code(n, c):
    return n.func is not None and n.func.name == '__getitem__'


def exc_name(e):
    if e.op == 'exc':
        return None         # raised again
    fn, args = fn_args(e)
    if fn is not None:
        if fn.op in ('ext', 'builtin'):
            return fn.args[0].split('.')[-1]
        return None
    if e.op == 'inst':
        return e.args[0].name if hasattr(e.args[0], 'name') else None
    if e.op == 'call':
        return None
    return None


def carried(v, news, s, name, depth):
    """the value holds an item looked up or made for the name"""
    if depth > 6:
        return True
    for t in subterms(v):
        if t is name:
            return True
        if t.op == 'elem':
            return True
        if t.op == 'inst' and t is not s and t in news:
            for x in news[t].args:
                if carried(x, news, s, name, depth + 1):
                    return True
    if v.op in ('res', 'top', 'phi', 'loopvar', 'sym'):
        fn, args = fn_args(v)
        if fn is None or fn.op not in ('func', 'class'):
            return True
    return False


# backends -------------------------------------------------------------------
def backend(ctx, c, gi, gg, s, name):
    """storages that are not made of other storages"""
    key = name_of(c)
    ok = True
    # the name reaches the library as it is
    for n in gg.nodes:
        if n.kind != 'call' or not n.get('args') or n.get('fn') is None:
            continue
        fn = n.fn
        if fn.op == 'attr' and of_self(fn.args[0], s):
            for a in n.args:
                if a.op not in ('bin', 'res', 'pure', 'ite', 'phi'):
                    continue
                j = joined(a, name)
                if j is not None:
                    ctx.bad('S05.backend', key, 'items are looked up by a '
                            'path in one text, %s: a name that contains %r '
                            'is delivered but not found' % (short(a), j),
                            ctx.where(n))
                    ok = False
                    break
                if transformed(a, name):
                    ctx.bad('S05.backend', key, 'items are looked up as %s '
                            'instead of the name asked for' % short(a),
                            ctx.where(n))
                    ok = False
                    break
        if not ok:
            break
    # files by their own names
    for n in gg.nodes:
        if n.kind not in ('branch', 'call', 'new') or not ok:
            continue
        for t in node_terms(n):
            for x in subterms(t):
                f2, a2 = fn_args(x)
                if f2 is not None and f2.op == 'ext' and \
                        f2.args[0] == 'os.path.join' and \
                        any(y is name for y in a2) and \
                        (n.kind == 'new' or tests_existence(n, x)) and \
                        not guarded(gg, n.id, name) and ok:
                    ctx.bad('S05.backend', key, 'every path below or above '
                            '%s is found, not only the names delivered'
                            % short(a2[0]), ctx.where(n))
                    ok = False
    for n in gi.nodes:
        fn = n.get('fn') if n.kind == 'call' else None
        if fn is None or fn.op != 'attr' or fn.args[1] != 'listdir' or \
                not of_self(fn.args[0], s):
            continue
        kw = dict(n.kw or ())
        st = kw.get('storages') or (
            n.args[1] if len(n.args or ()) > 1 else None)
        st = cval(st) if st is not None and is_const(st) else st
        sm = kw.get('streams') or (n.args[0] if n.args else None)
        if sm is not None and is_const(sm) and not cval(sm):
            ctx.bad('S05.backend', key, 'streams are not listed',
                    ctx.where(n))
            ok = False
        if st in (None, False):
            ctx.bad('S05.backend', key, 'storages are not listed unless they '
                    'contain streams', ctx.where(n))
            ok = False
    ok = delivered(ctx, c, gi, s, key) and ok
    if ok:
        ctx.ok('S05.backend', key)


def node_terms(n):
    if n.kind == 'branch':
        return [n.cond]
    return list(n.get('args') or ())


FILE_TESTS = ('os.path.exists', 'os.path.isdir', 'os.path.isfile',
              'os.path.lexists', 'io.open', 'open', 'os.stat', 'os.scandir')


def tests_existence(n, path):
    fn = n.get('fn') if n.kind == 'call' else None
    if fn is not None:
        return fn.op in ('ext', 'builtin') and fn.args[0] in FILE_TESTS
    for t in subterms(n.cond) if n.kind == 'branch' else ():
        f2, a2 = fn_args(t)
        if f2 is not None and f2.op in ('ext', 'builtin') and \
                f2.args[0] in FILE_TESTS and any(y is path for y in a2):
            return True
    return False


def of_self(t, s):
    return any(x is s for x in subterms(t))


def joined(a, name):
    """separator with which a name is joined to a path"""
    if a.op == 'bin' and a.args[0] == '+' and a.args[2] is name:
        b = a.args[1]
        if b.op == 'list':
            return None
        if b.op == 'bin' and b.args[0] == '+' and is_const(b.args[2]):
            return cval(b.args[2])
        if is_const(b) and isinstance(cval(b), str) and cval(b):
            return cval(b)
    if a.op == 'bin' and a.args[0] == '%' and is_const(a.args[1]):
        if any(x is name for x in subterms(a.args[2])) and \
                cval(a.args[1]) != '%s':
            return str(cval(a.args[1])).replace('%s', '')
    fn, args = fn_args(a)
    if fn is not None and fn.op == 'attr' and fn.args[1] == 'join' and \
            is_const(fn.args[0]) and any(
                x is name for y in args for x in subterms(y)):
        return cval(fn.args[0])
    for x in a.args:
        if a.op in ('ite', 'phi') and isinstance(x, Term):
            r = joined(x, name)
            if r is not None:
                return r
    return None


CHANGES = ('lower', 'upper', 'strip', 'replace', 'title', 'lstrip', 'rstrip',
           'casefold', 'capitalize', 'swapcase', 'translate')


def transformed(a, name):
    fn, args = fn_args(a)
    return fn is not None and fn.op == 'attr' and fn.args[0] is name and \
        fn.args[1] in CHANGES


def guarded(g, nid, name):
    """on every way to the node the name has been tested"""
    from ..flow import facts_at
    for c, pol, d in facts_at(g, nid):
        for t in subterms(c):
            if t.op == 'cmp' and any(x is name for x in subterms(t)):
                fs = {fn_args(x)[0].args[0] for x in subterms(t)
                      if fn_args(x)[0] is not None and
                      fn_args(x)[0].op == 'ext'}
                if fs & {'os.path.basename', 'os.listdir', 'os.path.split',
                         'os.path.dirname', 'os.scandir'} or \
                        t.args[0] in ('in', 'not in') and t.args[1] is name:
                    return True
            fn, args = fn_args(t)
            if fn is not None and name in args:
                return True
    return False


def delivered(ctx, c, g, s, key):
    """names of the listing are not left out"""
    emits = {n.id for n in sinks(g)}
    for n in sinks(g):
        for t in subterms(n.args[0]):
            fn, args = fn_args(t)
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] in CHANGES and any(
                        x.op == 'elem' and of_self(x.args[0], s)
                        for x in subterms(fn.args[0])):
                ctx.bad('S05.backend', key, 'the names are delivered as %s, '
                        'and not found by that' % short(t), ctx.where(n))
                return False
    for h in [n for n in g.nodes if n.kind == 'loop']:
        body = natural(g, h.id)
        it = h.get('iter')
        if it is None or not of_self(it, s):
            continue
        if not (emits & body):
            if not collected(g, it):
                continue
            for x in sorted(body):
                if g.nodes[x].kind == 'branch' and \
                        by_kind(g.nodes[x].cond, it, s):
                    ctx.bad('S05.backend', key, 'items are left out of the '
                            'listing by %s' % short(g.nodes[x].cond),
                            ctx.where(g.nodes[x]))
                    return False
            continue
        back, out = iterations(g, h.id)
        for p in out or ():
            if any(g.nodes[x].kind == 'next' and l == 'T' and
                   g.nodes[x].iter is it for x, l, y in p) and feasible(g, p):
                ctx.bad('S05.backend', key, 'the items after some may be '
                        'left out', ctx.where(h))
                return False
        for p in back or ():
            on = nodes_on(g, p)
            if any(n.id in emits for n in on) or not feasible(g, p):
                continue
            # left out: by their position in the tree or as duplicates
            conds = [g.nodes[x].cond for x, l, y in p
                     if g.nodes[x].kind == 'branch']
            for cd in conds:
                if by_kind(cd, it, s):
                    ctx.bad('S05.backend', key, 'items are left out of the '
                            'listing by %s' % short(cd), ctx.where(h))
                    return False
    return True


def collected(g, it):
    """the names delivered come from a comprehension over the names it"""
    for n in sinks(g):
        for t in subterms(n.args[0]):
            if t.op == 'comp' and any(
                    x.op == 'elem' and x.args[0] is it for x in subterms(t)):
                return True
    return False


def by_kind(cd, it, s):
    """a condition on the name of an item itself"""
    for t in subterms(cd):
        fn, args = fn_args(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'startswith', 'endswith', 'isalnum', 'isalpha', 'get_type',
                'isdigit', 'match'):
            return True
    return False


# kinds ----------------------------------------------------------------------
def is_storage_class(ctx, c):
    return bool(ctx.prog.method(c, '__iter__') and
                ctx.prog.method(c, '__getitem__'))


def is_stream_class(ctx, c):
    if ctx.prog.method(c, 'open'):
        return True
    for k in ctx.prog.mro(c):
        if isinstance(k, tuple):
            continue
        f = ctx.prog.method(k, '__init__')
        if f is not None:
            for n in ctx.graphs.get(f).nodes if ctx.graphs.get(f) else ():
                if n.kind == 'setattr' and n.attr == 'open':
                    return True
    return False


def kinds(ctx, c):
    """conversions of the items of documents keep their kind"""
    if not ctx.prog.method(c, 'resolve_conversion_for'):
        return
    s = inst(c, 'stg')
    for nm, stg in [(x, True) for x in STORAGES] + [(x, False)
                                                    for x in STREAMS]:
        try:
            g = ctx.query('from %s import %s as C\ndef q(stg, name):\n'
                          '    return C.__getitem__(stg, name)\n'
                          % (c.module.name, c.name),
                          args={'stg': s, 'name': T('const', nm)})
        except Exception:
            return
        key = '%s[%r]' % (name_of(c), nm)
        seen = False
        for n in g.nodes:
            if n.kind != 'exit-return':
                continue
            for v in alternatives(n.value):
                if v.op != 'inst' or not hasattr(v.args[0], 'name'):
                    continue
                k = v.args[0]
                if top_level(ctx, c) and stg and not \
                        is_storage_class(ctx, k):
                    ctx.bad('S05.kind', key, 'the storage %r is turned into '
                            'a %s, which is none' % (nm, k.name),
                            ctx.where(n))
                elif top_level(ctx, c) and not stg and (
                        is_storage_class(ctx, k) or
                        not is_stream_class(ctx, k)):
                    ctx.bad('S05.kind', key, 'the stream %r is turned into '
                            'a %s, which is none' % (nm, k.name),
                            ctx.where(n))
                elif top_level(ctx, c):
                    seen = True
        if seen:
            ctx.ok('S05.kind', key)


def top_level(ctx, c):
    """storages of whole documents, not of parts of them"""
    cache = ctx.__dict__.setdefault('_s05_top', {})
    if c not in cache:
        f = ctx.prog.method(c, 'resolve_conversion_for')
        names = set()
        for k in ctx.prog.mro(c):
            if isinstance(k, tuple):
                continue
            f = ctx.prog.method(k, 'resolve_conversion_for')
            g = ctx.graphs.get(f) if f is not None else None
            for n in g.nodes if g is not None else ():
                for v in n.d.values():
                    if isinstance(v, Term):
                        names |= {cval(t) for t in subterms(v)
                                  if is_const(t) and
                                  isinstance(cval(t), str)}
        cache[c] = bool(names & (set(STORAGES) | set(STREAMS)))
    return cache[c]


# streams --------------------------------------------------------------------
def cached_attrs(ctx, c):
    """attributes that are computed once"""
    out = set()
    for k in ctx.prog.mro(c):
        if isinstance(k, tuple):
            continue
        for st in k.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) \
                    and isinstance(st.value.func, ast.Name) and \
                    st.value.func.id == 'cached_property':
                out |= {t.id for t in st.targets if isinstance(t, ast.Name)}
            if isinstance(st, ast.FunctionDef) and any(
                    isinstance(d, ast.Name) and d.id in (
                        'cached_property', 'lru_cache', 'cache')
                    for d in st.decorator_list):
                out.add(st.name)
    return out


def streams(ctx, stgs):
    for c in sorted(all_classes(ctx), key=lambda c: (c.module.name, c.name)):
        if c in stgs:
            continue
        cached = cached_attrs(ctx, c)
        for nm, f in sorted(methods(ctx, c).items()):
            if not (nm == 'open' or nm.startswith('open_')) or \
                    f not in ctx.graphs:
                continue
            key = '%s.%s' % (name_of(c), nm)
            g = ctx.graphs[f]
            bad = None
            if nm in cached:
                bad = ('the stream is opened only once', None)
            for n in g.nodes:
                if n.kind == 'exit-return':
                    for v in alternatives(n.value):
                        if is_const(v) and cval(v) is None:
                            bad = bad or ('may return None', n)
                        elif v.op == 'attr' and v.args[0].op in (
                                'sym', 'inst', 'self', 'param'):
                            if not rewound(g, v, n.id):
                                bad = bad or ('hands out %s, which earlier '
                                              'calls have handed out already'
                                              % short(v), n)
                elif n.kind == 'setitem' and n.value in rets(g) and \
                        not is_const(n.value) and \
                        n.obj.op in ('attr', 'global', 'gval', 'gvar') and \
                        not rewound(g, n.value, n.id):
                    bad = bad or ('keeps the stream that it hands out in %s'
                                  % short(n.obj), n)
                elif n.kind == 'setattr' and n.value.op == 'res' and any(
                        x is n.value for x in rets(g)):
                    if not rewound(g, n.value, n.id):
                        bad = bad or ('keeps the stream that it hands out '
                                      'in .%s' % n.attr, n) \
                            if reused(g, n) else bad
            if bad:
                ctx.bad('S05.reopen', key, bad[0] if bad[1] is None else
                        'open() ' + bad[0],
                        ctx.where(bad[1]) if bad[1] is not None
                        else name_of(c))
            else:
                ctx.ok('S05.reopen', key)


def reused(g, n):
    return any(x.kind == 'branch' and any(
        t.op == 'attr' and t.args[1] == n.attr for t in subterms(x.cond))
        for x in g.nodes)


def rets(g):
    return [v for n in g.nodes if n.kind == 'exit-return'
            for v in alternatives(n.value)]


def rewound(g, v, nid):
    return any(n.kind == 'call' and n.get('fn') is not None and
               n.fn.op == 'attr' and n.fn.args[1] == 'seek' and
               n.fn.args[0] is v and n.args and cval(n.args[0]) == 0
               for n in g.nodes)


def methods(ctx, c):
    out = {}
    for f in ctx.graphs:
        if f.cls is c if hasattr(f, 'cls') else False:
            out[f.name] = f
    return out


BUFFERS = ('io.BytesIO', 'io.StringIO', 'BytesIO', 'StringIO',
           'tempfile.TemporaryFile', 'TemporaryFile')


def buffers(ctx):
    """buffers that are filled and handed out are rewound"""
    for f, g in sorted(ctx.graphs.items(), key=lambda x: x[0].fullname):
        for v in rets(g):
            fn, args = fn_args(v)
            if fn is None or fn.op != 'ext' or fn.args[0] not in BUFFERS:
                continue
            fills = [n.id for n in g.nodes if n.kind == 'call' and
                     n.get('fn') is not None and (
                         n.fn.op == 'attr' and n.fn.args[0] is v and
                         n.fn.args[1] in ('write', 'writelines') or
                         any(a is v for a in n.get('args') or ()))]
            if not fills:
                ctx.ok('S05.reopen', f.fullname)
                continue
            seeks = {n.id for n in g.nodes if n.kind == 'call' and
                     n.get('fn') is not None and n.fn.op == 'attr' and
                     n.fn.args[0] is v and n.fn.args[1] == 'seek' and
                     n.args and cval(n.args[0]) == 0}
            ends = {n.id for n in g.nodes if n.kind == 'exit-return' and
                    v in alternatives(n.value)}
            bad = None
            for x in fills:
                st, seen = [y for y, l in g.nodes[x].succ
                            if l not in NORMAL], set()
                while st:
                    y = st.pop()
                    if y in seen or y in seeks:
                        continue
                    seen.add(y)
                    if y in ends:
                        bad = x
                        break
                    st.extend(z for z, l in g.nodes[y].succ
                              if l not in NORMAL)
            if bad is not None:
                ctx.bad('S05.reopen', f.fullname, 'the stream handed out is '
                        'at its end, not at its beginning',
                        ctx.where(g.nodes[bad]))
            else:
                ctx.ok('S05.reopen', f.fullname)


I = 'hwp5/storage/__init__.py'
FS = 'hwp5/storage/fs.py'
OL = 'hwp5/plat/olefileio.py'
F = 'hwp5/filestructure.py'
PLAIN = """        for name in self.wrapped:
            yield name

            item = self.wrapped[name]
"""
witnesses = [
    ('found by the extension', 'hwp5/storage/__init__.py',
     "                            if root + ext == name:\n",
     "                            if name.endswith(ext):\n"),
    ('names left out', I, PLAIN, """        for name in self.wrapped:
            item = self.wrapped[name]
            if is_storage(item):
                continue
            yield name

"""),
    ('hidden names', I, """    def __iter__(self):
        return iter(self.wrapped)
""", """    def __iter__(self):
        return (name for name in self.wrapped if not name.startswith('_'))
"""),
    ('names in a loop', I, """    def __iter__(self):
        return iter(self.wrapped)
""", """    def __iter__(self):
        seen = []
        for name in self.wrapped:
            if name.lower() in seen:
                continue
            seen.append(name.lower())
            yield name
"""),
    ('delivered twice', I, PLAIN, PLAIN.replace(
        "            item =", "            yield name.lower()\n"
        "            yield name\n            item =")),
    ('other format looked up differently', I,
     "                            if root + ext == name:\n",
     "                            if root + '.' + ext == name:\n"),
    ('other format invented', I,
     "                        yield name + ext\n",
     "                        yield name.lower() + ext\n"),
    ('missing gives None', I, """                                return Open2Stream(func)
            raise
""", """                                return Open2Stream(func)
"""),
    ('missing in wrapper gives None', I, """        item = self.wrapped[name]
        # """, """        try:
            item = self.wrapped[name]
        except KeyError:
            return None
        # """),
    ('lookup in lower case', I, """    def __getitem__(self, name):
        return self.wrapped[name]
""", """    def __getitem__(self, name):
        return self.wrapped[name.lower()]
"""),
    ('conversion drops the item', I, "            return conversion(item)\n",
     "            return conversion\n"),
    ('missing file raises IOError', FS, "            raise KeyError(name)\n"
     "\n\nclass FileSystemStream", "            raise IOError(name)\n"
     "\n\nclass FileSystemStream"),
    ('any path is found', FS, """        if name in ('', os.curdir, os.pardir) or os.path.basename(name) != name:
            raise KeyError(name)
""", ''),
    ('hidden files', FS, "return iter(sorted(os.listdir(self.path)))",
     "return iter(sorted(n for n in os.listdir(self.path)\n"
     "                           if not n.startswith('.')))"),
    ('path as text', OL, "        path = self.segments + [name]\n",
     "        path = '/'.join(self.segments + [name])\n"),
    ('joined path', OL, "        path = self.segments + [name]\n"
     "        if not self.olefile.exists(path):",
     "        path = self.path + '/' + name if self.path else name\n"
     "        if not self.olefile.exists(path):"),
    ('storages not listed', OL, "listdir(streams=True, storages=True)",
     "listdir()"),
    ('missing raises IOError', OL, "raise KeyError('%s not found'",
     "raise IOError('%s not found'"),
    ('unknown type gives None', OL,
     "        else:\n            raise KeyError('%s is invalid' % "
     "'/'.join(path))\n", ''),
    ('gsf: missing gives None', 'hwp5/plat/gir_gsf.py',
     "        else:\n            raise KeyError(name)\n",
     "        return None\n"),
    ('BodyText as stream', F,
     "        elif name in ('DocInfo', ):\n"
     "            return PasswordProtectedStream\n",
     "        elif name in ('DocInfo', ):\n"
     "            return PasswordProtectedStorage\n"),
    ('Scripts as stream', F,
     "        elif name == 'Scripts':\n            return CompressedStorage",
     "        elif name == 'Scripts':\n            return CompressedStream"),
    ('kept stream', F, """    def open(self):
        with closing(self.wrapped.open()) as f:
            return decompress(f)
""", """    def open(self):
        if self.__dict__.get('_data') is None:
            with closing(self.wrapped.open()) as f:
                self._data = decompress(f)
        return self._data
"""),
    ('opened once', F, """class HwpFileHeader(object):

    def __init__(self, item):
        self.open = item.open
""", """class HwpFileHeader(object):

    def __init__(self, item):
        self.stream = item.open()

    def open(self):
        return self.stream
"""),
    ('not rewound', F, """            out.write('{}: {}\\n'.format(k, v).encode('utf-8'))
        out.seek(0)
""", """            out.write('{}: {}\\n'.format(k, v).encode('utf-8'))
"""),
]

benign = [
    ('compares the rest of the name', 'hwp5/storage/__init__.py',
     "                            if root + ext == name:\n",
     "                            if name.startswith(root) and \\\n"
     "                                    name[len(root):] == ext:\n"),
    ('loop', I, """    def __iter__(self):
        return iter(self.wrapped)
""", """    def __iter__(self):
        for name in self.wrapped:
            yield name
"""),
    ('generator expression', I, """    def __iter__(self):
        return iter(self.wrapped)
""", """    def __iter__(self):
        return (name for name in self.wrapped)
"""),
    ('helper', I, """                    for ext in other_formats:
                        yield name + ext
""", """                    for ext, func in other_formats.items():
                        extra = name + ext
                        yield extra
"""),
    ('flat lookup', I, """        try:
            item = self.wrapped[name]
            if is_storage(item):
                item = ExtraItemStorage(item)
            return item
        except KeyError:
""", """        try:
            item = self.wrapped[name]
        except KeyError:
            item = None
        if item is not None:
            return ExtraItemStorage(item) if is_storage(item) else item
        try:
            raise KeyError(name)
        except KeyError:
"""),
    ('conditional', I, """        if conversion:
            return conversion(item)
        return item
""", """        return item if not conversion else conversion(item)
"""),
    ('early raise', FS, """        if os.path.isdir(path):
            return FileSystemStorage(path)
        elif os.path.exists(path):
            return FileSystemStream(path)
        else:
            raise KeyError(name)
""", """        if not os.path.exists(path):
            raise KeyError(name)
        if os.path.isdir(path):
            return FileSystemStorage(path)
        return FileSystemStream(path)
"""),
    ('listed names only', FS, """        if name in ('', os.curdir, os.pardir) or os.path.basename(name) != name:
            raise KeyError(name)
""", """        if name not in os.listdir(self.path):
            raise KeyError(name)
"""),
    ('append', OL, "        path = self.segments + [name]\n",
     "        path = list(self.segments)\n        path.append(name)\n"),
    ('copied stream', F, """        with closing(self.wrapped.open()) as f:
            return decompress(f)
""", """        f = self.wrapped.open()
        try:
            data = decompress(f)
        finally:
            f.close()
        return data
"""),
    ('cached data', F, """    def open(self):
        with closing(self.wrapped.open()) as f:
            return decompress(f)
""", """    def open(self):
        if self.__dict__.get('_data') is None:
            with closing(self.wrapped.open()) as f:
                self._data = decompress(f).read()
        return BytesIO(self._data)
"""),
]
