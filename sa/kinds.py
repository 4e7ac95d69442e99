# -*- coding: utf-8 -*-
"""Whether values are bytes or text, and files binary or text: an
interprocedural evaluation of terms into sets of kinds. The empty set means
that nothing is known; kinds that are given come from a definite source."""
import ast

from .terms import T, Term, is_const, cval, subterms, alternatives
from .prog import FuncInfo, ClassInfo

BYTES, TEXT, BIN, TXT = 'bytes', 'text', 'binary file', 'text file'
NONE = frozenset()
B, S = frozenset([BYTES]), frozenset([TEXT])
OF_FILE = {BIN: BYTES, TXT: TEXT}
FILE_OF = {BYTES: BIN, TEXT: TXT}

# functions of the standard library with known results
RESULTS = {
    'builtins.str': S, 'builtins.repr': S, 'builtins.ascii': S,
    'builtins.chr': S, 'builtins.hex': S, 'builtins.oct': S,
    'builtins.bin': S, 'builtins.format': S, 'builtins.input': S,
    'builtins.bytes': B, 'builtins.bytearray': B,
    'struct.pack': B, 'binascii.b2a_hex': B, 'binascii.hexlify': B,
    'binascii.a2b_hex': B, 'binascii.unhexlify': B,
    'binascii.b2a_base64': B, 'binascii.a2b_base64': B,
    'base64.b64encode': B, 'base64.b64decode': B, 'base64.b16encode': B,
    'base64.encodebytes': B, 'base64.encodestring': B,
    'zlib.compress': B, 'zlib.decompress': B,
    'json.dumps': S, 'os.path.join': None, 'os.path.abspath': None,
    'os.path.basename': None, 'os.path.dirname': None,
    'os.urandom': B, 'textwrap.dedent': S, 'os.getcwd': S,
    'subprocess.check_output': B, 'xml.sax.saxutils.escape': S,
    'xml.sax.saxutils.quoteattr': S, 'io.BytesIO': frozenset([BIN]),
    'io.StringIO': frozenset([TXT]), 'io.TextIOWrapper': frozenset([TXT]),
    'sys.stdin': frozenset([TXT]), 'sys.stdout': frozenset([TXT]),
    'sys.stderr': frozenset([TXT]), 'sys.stdin.buffer': frozenset([BIN]),
    'sys.stdout.buffer': frozenset([BIN]),
    'sys.stderr.buffer': frozenset([BIN]),
}
KEEP = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title',
        'ljust', 'rjust', 'center', 'zfill', 'expandtabs', 'capitalize',
        'swapcase', 'translate', 'join', 'casefold'}
SPLIT = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}
SAME = {'builtins.sorted', 'builtins.list', 'builtins.tuple',
        'builtins.iter', 'builtins.reversed', 'builtins.set',
        'builtins.frozenset', 'itertools.islice', 'itertools.chain'}


class Kinds:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.sites = {}          # FuncInfo -> [(args, kw, caller)]
        self.stores = {}         # attribute -> [(ClassInfo, value, func)]
        self.memo = {}
        self.busy = set()
        for f, g in ctx.graphs.items():
            for n in g.nodes:
                t = n.get('target')
                if n.kind == 'call' and t is None:
                    self.indirect(n, f)
                if n.kind in ('call', 'mkgen') and isinstance(t, FuncInfo):
                    self.sites.setdefault(t, []).append(
                        (n.args, n.get('kw') or (), f))
                elif n.kind == 'new' and isinstance(n.get('cls'), ClassInfo):
                    i = self.prog.method(n.cls, '__init__')
                    if isinstance(i, FuncInfo):
                        a = (T('inst', n.cls, 'self'),) + tuple(n.args)
                        self.sites.setdefault(i, []).append(
                            (a, n.get('kw') or (), f))
                elif n.kind == 'setattr' and n.obj.op == 'inst':
                    self.stores.setdefault(n.get('attr'), []).append(
                        (n.obj.args[0], n.value, f))

    def indirect(self, n, f):
        """calls of partial objects and methods of unknown objects"""
        for fn, args, kw in applied(n.fn, tuple(n.args), n.get('kw') or ()):
            if fn.op == 'func':
                self.sites.setdefault(fn.args[0], []).append((args, kw, f))
            if fn.op != 'attr':
                continue
            a = (T('sym', 'self'),) + args
            cs = self.classes_of(fn.args[0], f)
            ms = [m for m in (self.prog.method(c, fn.args[1]) for c in cs)
                  if isinstance(m, FuncInfo)]
            if not ms and fn.args[1] not in COMMON:
                # methods that only one class has
                ms = self.methods().get(fn.args[1], ())
                if len(ms) > 1:
                    ms = ()
            for m in ms:
                self.sites.setdefault(m, []).append((a, kw, f))

    def classes_of(self, t, f, depth=5):
        """classes of the instances a term stands for"""
        if depth <= 0 or not isinstance(t, Term):
            return set()
        if t.op == 'inst' and isinstance(t.args[0], ClassInfo):
            return {t.args[0]}
        if t.op in ('ite', 'phi'):
            out = set()
            for x in (t.args[1:] if t.op == 'ite' else t.args):
                out |= self.classes_of(x, f, depth - 1)
            return out
        fn, args, kw = parts(t)
        if fn is None:
            return set()
        hs = ()
        if fn.op == 'func':
            hs = (fn.args[0],)
        elif fn.op == 'attr' and fn.args[1] not in COMMON:
            hs = self.methods().get(fn.args[1], ())
        out = set()
        for h in hs:
            for v, x, e in self.returned(h, (), (), None, None):
                out |= self.classes_of(v, x, depth - 1)
        return out

    # -- parameters
    def params(self, f):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def bind(self, f, args, kw, caller, env, elem=False):
        """kinds of the parameters of f for one call"""
        out = {}
        ps = self.params(f)
        for p, a in zip(ps, args):
            if a.op == 'star':
                break
            out[p] = (a, caller, env)
        for k, v in kw:
            if k:
                out[k] = (v, caller, env)
        return out

    def param(self, f, name, what):
        """kinds of a parameter, joined over the calls of f"""
        key = (f, name, what)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return NONE
        self.busy.add(key)
        out = set()
        for args, kw, caller in self.sites.get(f, ()):
            b = self.bind(f, args, kw, caller, None).get(name)
            if b is not None:
                out |= getattr(self, what)(b[0], b[1])
        a = f.node.args
        ps = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]],
                     a.defaults))
        if name in d and isinstance(d[name], ast.Constant) and \
                what == 'of':
            out |= const_kind(d[name].value)
        self.busy.discard(key)
        self.memo[key] = frozenset(out)
        return self.memo[key]

    def sym(self, name, f, env, what):
        h = f
        while h is not None:
            if env and h is f and name in env:
                t, caller, e2 = env[name]
                return getattr(self, what)(t, caller, e2)
            if name in self.params(h):
                return self.param(h, name, what)
            if name in h.local_names:
                return self.enclosing(h, name, what) if h is not f else NONE
            h = h.parent
        return NONE

    def enclosing(self, h, name, what):
        """local variable of an enclosing function, when it returns"""
        key = (h, name, 'enclosing', what)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = NONE
        g = self.ctx.graphs[h]
        fr = getattr(g.walker, 'entry_frame', None)
        out = NONE
        if fr is not None:
            for n in g.nodes:
                if n.kind == 'exit-return':
                    v = n.d['state'].v.get(('v', fr.id, name))
                    if isinstance(v, Term):
                        out |= getattr(self, what)(v, h)
        self.memo[key] = out
        return out

    def fields(self):
        """values stored under constant keys of dictionaries"""
        r = self.__dict__.get('_fields')
        if r is None:
            r = self._fields = {}
            for f, g in self.ctx.graphs.items():
                seen = set()
                for n in g.nodes:
                    if n.kind == 'setitem' and is_const(n.key) and \
                            isinstance(n.key.args[0], str):
                        r.setdefault(n.key.args[0], []).append((n.value, f))
                    for v in values_of(n):
                        for s in subterms(v):
                            if s in seen:
                                continue
                            seen.add(s)
                            if s.op == 'dict':
                                for x in s.args:
                                    if isinstance(x, tuple) and is_const(
                                            x[0]) and isinstance(
                                            x[0].args[0], str):
                                        r.setdefault(x[0].args[0],
                                                     []).append((x[1], f))
                            elif s.op in ('res', 'pure'):
                                fn, args, kw = parts(s)
                                if fn is T('ext', 'builtins.dict'):
                                    for k, y in kw:
                                        if k:
                                            r.setdefault(k, []).append(
                                                (y, f))
        return r

    def field(self, key):
        m = ('field', key)
        if m not in self.memo:
            self.memo[m] = NONE
            out = self.declared().get(key, NONE)
            for v, f in self.fields().get(key, ()):
                out |= self.of(v, f)
            self.memo[m] = out if len(out) == 1 else NONE
        return self.memo[m]

    def declared(self):
        """kinds of the members of structures, by name"""
        r = self.__dict__.get('_declared')
        if r is None:
            r = {}
            for c in self.ctx.layout.struct_classes():
                for m in self.ctx.layout.own_members(c) or ():
                    r.setdefault(m.get('name'), set()).add(kind_of_member(m))
            r = self._declared = {
                k: next(iter(v)) for k, v in r.items()
                if len(v) == 1 and None not in v}
        return r

    def kind_in(self, c, name):
        for k in self.prog.mro(c):
            if isinstance(k, ClassInfo) and self.ctx.layout.is_struct(k):
                for m in self.ctx.layout.own_members(k) or ():
                    if m.get('name') == name:
                        return kind_of_member(m) or NONE
        return None

    def methods(self):
        r = self.__dict__.get('_methods')
        if r is None:
            r = self._methods = {}
            for c in self.prog.classes:
                for nm, bs in c.members.items():
                    for b in bs:
                        if b.kind == 'func':
                            r.setdefault(nm, []).append(b.value)
        return r

    def by_name(self, name, args, kw, f, env, depth):
        """result of a method of an unknown object"""
        ms = self.methods().get(name, ())
        if not ms or name in COMMON:
            return NONE
        key = ('by name', name)
        if key in self.busy:
            return NONE
        self.busy.add(key)
        out = NONE
        for h in ms:
            k = NONE
            for v, x, e in self.returned(h, (T('sym', 'self'),) + tuple(args),
                                         kw, f, env):
                k |= self.of(v, x, e, depth - 1)
            if not k and name != 'open':
                out = NONE
                break
            out |= k
        self.busy.discard(key)
        return out if len(ms) == 1 or len(out) == 1 else NONE

    def reader(self, c):
        """instances of classes with a method read() are files"""
        m = self.prog.method(c, 'read')
        if not isinstance(m, FuncInfo) or any(
                isinstance(d, ast.Name) and d.id in (
                    'staticmethod', 'classmethod')
                for d in m.node.decorator_list):
            return NONE
        key = ('reader', c)
        if key not in self.memo:
            self.memo[key] = NONE
            out = NONE
            for v, h, e in self.returned(m, (), (), None, None):
                out |= self.of(v, h, e)
            self.memo[key] = frozenset(FILE_OF[x] for x in out
                                       if x in FILE_OF)
        return self.memo[key]

    # -- kinds of a value
    def of(self, t, f, env=None, depth=12):
        if not isinstance(t, Term) or depth <= 0:
            return NONE
        op = t.op
        if op == 'const':
            return const_kind(t.args[0])
        if op == 'sym':
            return self.sym(t.args[0], f, env, 'of')
        if op in ('ite', 'phi'):
            xs = t.args[1:] if op == 'ite' else t.args
            return self.union(xs, f, env, depth)
        if op == 'loopvar':
            return self.of(t.args[2], f, env, depth - 1)
        if op == 'gval':
            return self.of(t.args[2], f, env, depth - 1)
        if op == 'bin':
            return self.binop(t, f, env, depth)
        if op == 'sub':
            if is_const(t.args[1]) and isinstance(cval(t.args[1]), str):
                for c in self.structs(t.args[0], f):
                    k = self.kind_in(c, cval(t.args[1]))
                    if k is not None:
                        return k
                return self.field(cval(t.args[1]))
            base = self.of(t.args[0], f, env, depth - 1)
            if t.args[1].op == 'slice':
                return base & {BYTES, TEXT}
            if is_const(t.args[1]) and isinstance(cval(t.args[1]), int) or \
                    not is_const(t.args[1]):
                r = base & {TEXT}
                return frozenset(r) | (
                    self.elem(t.args[0], f, env, depth - 1)
                    if not base else NONE)
            return NONE
        if op == 'inst' and isinstance(t.args[0], ClassInfo):
            return self.reader(t.args[0])
        if op == 'elem':
            return self.elem(t.args[0], f, env, depth - 1)
        if op == 'item':
            return self.item(t, f, env, depth)
        if op == 'entered':
            return self.entered(t.args[0], f, env, depth)
        if op == 'ext':
            return RESULTS.get(t.args[0], NONE) if t.args[0].startswith(
                'sys.') else NONE
        if op == 'attr':
            return self.attr(t, f, env, depth)
        if op in ('res', 'pure'):
            return self.call(t, f, env, depth)
        return NONE

    def union(self, xs, f, env, depth):
        out = NONE
        for x in xs:
            out |= self.of(x, f, env, depth - 1)
        return out

    def binop(self, t, f, env, depth):
        op, a, b = t.args
        ka = self.of(a, f, env, depth - 1)
        if op == '%':
            return ka & {BYTES, TEXT}
        if op == '+':
            return (ka or self.of(b, f, env, depth - 1)) & {BYTES, TEXT}
        if op == '*':
            return (ka | self.of(b, f, env, depth - 1)) & {BYTES, TEXT}
        return NONE

    def item(self, t, f, env, depth):
        b, i = t.args
        if b.op in ('tuple', 'list') and isinstance(i, int) and \
                i < len(b.args):
            return self.of(b.args[i], f, env, depth - 1)
        if b.op == 'entered':
            ys = self.yields(b.args[0], f, env)
            out = NONE
            for v, h, e in ys:
                if v.op == 'tuple' and isinstance(i, int) and \
                        i < len(v.args):
                    out |= self.of(v.args[i], h, e, depth - 1)
            return out
        if b.op == 'elem':
            out = NONE
            for v, h, e in self.elements(b.args[0], f, env, depth - 1):
                if v.op == 'tuple' and isinstance(i, int) and \
                        i < len(v.args):
                    out |= self.of(v.args[i], h, e, depth - 1)
            return out
        fn, args, kw = parts(b)
        if fn is not None and fn.op == 'attr' and fn.args[1] in (
                'partition', 'rpartition'):
            return self.of(fn.args[0], f, env, depth - 1) & {BYTES, TEXT}
        if fn is not None and fn.op == 'func':
            out = NONE
            for v, h, e in self.returned(fn.args[0], args, kw, f, env):
                if v.op == 'tuple' and isinstance(i, int) and \
                        i < len(v.args):
                    out |= self.of(v.args[i], h, e, depth - 1)
            return out
        return NONE

    def attr(self, t, f, env, depth):
        o, name = t.args
        if o.op == 'inst' and isinstance(o.args[0], ClassInfo):
            return self.member(o.args[0], name, 'of')
        k = self.of(o, f, env, depth - 1)
        if name == 'buffer' and TXT in k:
            return frozenset([BIN])
        fn, args, kw = parts(o)
        if fn is not None and fn.op == 'ext' and fn.args[0] == \
                'subprocess.Popen' and name in ('stdin', 'stdout', 'stderr'):
            names = {k for k, v in kw}
            if names & {'encoding', 'errors'}:
                return frozenset([TXT])
            for k, v in kw:
                if k in ('text', 'universal_newlines') and is_const(v) and \
                        cval(v):
                    return frozenset([TXT])
            return NONE if names & {'text', 'universal_newlines', None} \
                else frozenset([BIN])
        if name in ('__name__', '__doc__', '__module__'):
            return S
        return NONE

    def member(self, c, name, what):
        key = (c, name, what)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return NONE
        self.busy.add(key)
        out = NONE
        fam = {x for x in self.prog.mro(c) if isinstance(x, ClassInfo)}
        for k, v, g in self.stores.get(name, ()):
            if k in fam or c in self.prog.mro(k):
                out |= getattr(self, what)(v, g)
        for b, k in self.prog.class_attr(c, name):
            if b.kind == 'func' and any(
                    isinstance(d, ast.Name) and d.id in (
                        'property', 'cached_property')
                    for d in b.value.node.decorator_list):
                for v, h, e in self.returned(b.value, (), (), None, None):
                    out |= getattr(self, what)(v, h, e)
            elif b.kind == 'expr' and self.getter(c, b.value):
                for v, h, e in self.returned(self.getter(c, b.value), (), (),
                                             None, None):
                    out |= getattr(self, what)(v, h, e)
            elif b.kind == 'expr' and isinstance(b.value, ast.Constant) and \
                    what == 'of':
                out |= const_kind(b.value.value)
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def getter(self, c, x):
        """function of x = property(f)"""
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ('property', 'cached_property') and \
                len(x.args) == 1 and isinstance(x.args[0], ast.Name):
            for b, k in self.prog.class_attr(c, x.args[0].id):
                if b.kind == 'func':
                    return b.value
        return None

    def structs(self, t, f, depth=6):
        """classes of structures a value was read as"""
        if depth <= 0 or not isinstance(t, Term):
            return set()
        if t.op == 'attr' and t.args[0].op == 'inst' and isinstance(
                t.args[0].args[0], ClassInfo):
            c = t.args[0].args[0]
            out = set()
            for b, k in self.prog.class_attr(c, t.args[1]):
                h = b.value if b.kind == 'func' else self.getter(c, b.value) \
                    if b.kind == 'expr' else None
                if isinstance(h, FuncInfo):
                    for v, x, e in self.returned(h, (), (), None, None):
                        out |= self.structs(v, x, depth - 1)
            return out
        fn, args, kw = parts(t)
        out = set()
        if fn is not None and fn.op == 'func':
            for a in args:
                if a.op == 'class' and self.ctx.layout.is_struct(a.args[0]):
                    out.add(a.args[0])
        return out

    # -- calls
    def returned(self, h, args, kw, f, env):
        """values returned by a call of h: (value, function, environment)"""
        g = self.ctx.graphs.get(h)
        if g is None or h.is_generator:
            return []
        e = self.bind(h, args, kw, f, env) if args or kw else None
        return [(n.value, h, e) for n in g.nodes if n.kind == 'exit-return']

    def call(self, t, f, env, depth):
        fn, args, kw = parts(t)
        if fn.op == 'ext':
            nm = fn.args[0]
            if nm in ('builtins.open', 'io.open', 'os.fdopen',
                      'codecs.open') or nm in TEMPORARY:
                return self.opened(nm, args, kw)
            if nm in ('contextlib.closing', 'copy.copy', 'copy.deepcopy') \
                    and args:
                return self.of(args[0], f, env, depth - 1)
            if nm == 'builtins.str' and not args:
                return NONE       # may be an alias of bytes
            if nm in ('builtins.getattr',) and len(args) == 3:
                if is_const(args[1]) and args[1].args[0] == 'buffer':
                    return frozenset([BIN])
            r = RESULTS.get(nm, NONE)
            if r is None:
                return self.of(args[0], f, env, depth - 1) if args else NONE
            return r
        if fn.op == 'func':
            h = fn.args[0]
            key = (h, 'returns')
            if key in self.busy:
                return NONE
            self.busy.add(key)
            out = NONE
            for v, x, e in self.returned(h, args, kw, f, env):
                out |= self.of(v, x, e, depth - 1)
            self.busy.discard(key)
            return out
        if fn.op in ('attr', 'ext'):
            o, name = receiver(fn)
            if o is None:
                return NONE
            k = self.of(o, f, env, depth - 1)
            if name == 'encode' and not (args and is_const(args[0]) and
                                         args[0].args[0] in CODECS):
                if not (k and TEXT not in k):
                    return B
            if name == 'decode' and BYTES in k:
                return S
            if name in ('digest',):
                return B
            if name in ('hexdigest', 'format', 'isoformat', 'strftime'):
                return S
            if name in KEEP:
                return k & {BYTES, TEXT}
            if name in ('read', 'readline', 'getvalue', 'read1'):
                return frozenset(OF_FILE[x] for x in k if x in OF_FILE)
            if name == 'detach':
                return frozenset([BIN])
            if not k and fn.op == 'attr':
                return self.by_name(name, args, kw, f, env, depth)
            return NONE
        # writer = codecs.getwriter(...); writer(f)
        f2, a2, k2 = parts(fn)
        if f2 is not None and f2.op == 'ext' and f2.args[0] in (
                'codecs.getwriter', 'codecs.getreader'):
            return frozenset([TXT])
        return NONE

    def opened(self, nm, args, kw):
        kw = dict(kw)
        at = 0 if nm in TEMPORARY else 1
        mode = args[at] if len(args) > at else kw.get('mode')
        if mode is None:
            return frozenset([BIN if nm in TEMPORARY else TXT])
        out = set()
        for m in alternatives(mode):
            if not is_const(m) or not isinstance(m.args[0], str):
                return NONE
            out.add(BIN if 'b' in m.args[0] else TXT)
        return frozenset(out) if len(out) == 1 else NONE

    def yields(self, t, f, env):
        """values that a context manager made from a generator gives"""
        if t.op == 'gencall':
            h, args, kw = t.args[0], t.args[1], t.args[2]
        else:
            fn, args, kw = parts(t)
            if fn is None or fn.op != 'func':
                return []
            h = fn.args[0]
        g = self.ctx.graphs.get(h)
        if g is None or not h.is_generator:
            return []
        e = self.bind(h, args, kw, f, env)
        return [(n.value, h, e) for n in g.nodes if n.kind == 'yield' and
                n.get('value') is not None]

    def entered(self, t, f, env, depth):
        if t.op in ('ite', 'phi'):
            xs = t.args[1:] if t.op == 'ite' else t.args
            out = NONE
            for x in xs:
                out |= self.entered(x, f, env, depth)
            return out
        ys = self.yields(t, f, env)
        if ys:
            out = NONE
            for v, h, e in ys:
                key = (h, 'entered')
                if key in self.busy:
                    continue
                self.busy.add(key)
                out |= self.of(v, h, e, depth - 1)
                self.busy.discard(key)
            return out
        return self.of(t, f, env, depth - 1)

    # -- elements of a sequence, generator or file
    def elements(self, t, f, env, depth):
        if t.op in ('list', 'tuple', 'set'):
            return [(x, f, env) for x in t.args]
        if t.op == 'container' and isinstance(t.args[1], Term):
            return self.elements(t.args[1], f, env, depth - 1)
        if t.op == 'comp':
            return [(t.args[1][0], f, env)] if len(t.args[1]) == 1 else []
        if t.op == 'gencall':
            return self.yields(t, f, env)
        if t.op in ('ite', 'phi'):
            out = []
            for x in (t.args[1:] if t.op == 'ite' else t.args):
                out += self.elements(x, f, env, depth - 1)
            return out
        fn, args, kw = parts(t)
        if fn is not None and fn.op == 'ext' and fn.args[0] in SAME:
            out = []
            for x in args:
                out += self.elements(x, f, env, depth - 1)
            return out
        if fn is not None and fn.op == 'func' and not \
                fn.args[0].is_generator:
            out = []
            for v, h, e in self.returned(fn.args[0], args, kw, f, env):
                out += self.elements(v, h, e, depth - 1) if depth > 0 else []
            return out
        return []

    def added(self, t, f):
        """values added to a list of a function"""
        r = self.__dict__.setdefault('_added', {})
        if f not in r:
            r[f] = {}
            for n in self.ctx.graphs[f].nodes if f in self.ctx.graphs else ():
                if n.kind == 'call' and n.fn.op == 'attr' and n.args and \
                        n.fn.args[1] in ('append', 'add', 'insert'):
                    r[f].setdefault(n.fn.args[0], []).append(n.args[-1])
        return r[f].get(t, ())

    def elem(self, t, f, env=None, depth=12):
        if not isinstance(t, Term) or depth <= 0:
            return NONE
        if t.op == 'sym':
            return self.sym(t.args[0], f, env, 'elem')
        if t.op == 'attr' and t.args[0].op == 'inst' and isinstance(
                t.args[0].args[0], ClassInfo):
            return self.member(t.args[0].args[0], t.args[1], 'elem')
        if t.op in ('ite', 'phi'):
            out = NONE
            for x in (t.args[1:] if t.op == 'ite' else t.args):
                out |= self.elem(x, f, env, depth - 1)
            return out
        if t.op == 'bin' and t.args[0] == '+':
            return self.elem(t.args[1], f, env, depth - 1) | \
                self.elem(t.args[2], f, env, depth - 1)
        out = NONE
        key = ('elem', t, f)
        if key in self.busy:
            return NONE
        self.busy.add(key)
        for v, h, e in self.elements(t, f, env, depth):
            out |= self.of(v, h, e, depth - 1)
        for v in self.added(t, f):
            out |= self.of(v, f, env, depth - 1)
        self.busy.discard(key)
        if out:
            return out
        fn, args, kw = parts(t)
        if fn is not None and fn.op == 'attr' and fn.args[1] in SPLIT:
            return self.of(fn.args[0], f, env, depth - 1) & {BYTES, TEXT}
        k = self.of(t, f, env, depth - 1)
        return frozenset(OF_FILE[x] for x in k if x in OF_FILE) | (
            k & {TEXT})


# types of members of structures
DECLARED = {'BSTR': S, 'CHID': S, 'BYTES': B}
def kind_of_member(m):
    ty = m.get('type')
    nm = ty.get('inst') if isinstance(ty, dict) else \
        str(ty).rpartition(' ')[2]
    return DECLARED.get(nm)


TEMPORARY = {'tempfile.TemporaryFile', 'tempfile.NamedTemporaryFile'}
COMMON = {'read', 'write', 'get', 'close', 'seek', 'decode', 'encode', 'items',
          'keys', 'values', 'next', 'start', 'name', 'path', 'split'}
CODECS = {'hex', 'base64', 'zlib', 'bz2', 'rot13', 'rot_13', 'string-escape'}


def applied(fn, args, kw, depth=4):
    """what calling a term calls: partial objects are opened"""
    if depth <= 0:
        return
    if fn.op in ('ite', 'phi'):
        for x in (fn.args[1:] if fn.op == 'ite' else fn.args):
            yield from applied(x, args, kw, depth - 1)
        return
    f2, a2, k2 = parts(fn)
    if f2 is not None and f2 is T('ext', 'functools.partial') and a2:
        yield from applied(a2[0], tuple(a2[1:]) + tuple(args),
                           tuple(k2) + tuple(kw), depth - 1)
        return
    yield fn, tuple(args), tuple(kw)


def parts(t):
    if t.op == 'res':
        return t.args[1], t.args[2], t.args[3] if len(t.args) > 3 else ()
    if t.op == 'pure':
        return t.args[0], t.args[1], t.args[2] if len(t.args) > 2 else ()
    return None, (), ()


def receiver(fn):
    """(object, method) of a called term"""
    if fn.op == 'attr':
        return fn.args
    if fn.op == 'ext':
        b, _, m = fn.args[0].rpartition('.')
        if b.startswith('sys.std'):
            return T('ext', b), m
    return None, None


def values_of(n):
    for v in n.d.values():
        for x in (v if isinstance(v, tuple) else (v,)):
            if isinstance(x, tuple) and len(x) == 2:
                x = x[1]
            if isinstance(x, Term):
                yield x


def const_kind(v):
    if isinstance(v, bytes):
        return B
    if isinstance(v, str):
        return S
    return NONE
