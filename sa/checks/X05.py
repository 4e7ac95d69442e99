# -*- coding: utf-8 -*-
"""X05 stylesheets address only what the XML model produces."""
import os

from ..terms import (T, Term, is_const, cval, subterms, alternatives)
from ..cases import walk
from ..events import class_of, input_loops, Transform
from .. import xsl
from ._util import fn_args
from .X02 import Analysis, MODULES
from .X03 import dict_keys, strip

TECHNIQUE = ('vocabulary extraction and cross-language name resolution: the '
             'elements, attributes and enumerated values of document XML '
             'are derived from the declared record layouts, from the '
             'functions that turn members into attributes and from the '
             'elements that transformations create; all XPath expressions '
             'of the stylesheets are parsed and resolved against them')
LEVEL_NOTE = ('Names are resolved against the kind of element that an '
              'expression is evaluated for where that is known; which '
              'records a document nests in which is not modelled.')
EXPLANATION = '''The vocabulary is computed from the source: members of every
record model and struct, with the names that expanded_xmlattribute and
xmlattr_dashednames make of them for each kind of type, elements built in the
transformations, values of enumerations. Every XPath expression of every
bundled stylesheet is parsed; each element name, each attribute (of the
element it is selected from), each compared enumeration value, variable, key,
mode, named template, template parameter and imported stylesheet must exist.'''

FUNCTIONS = set('''last position count id local-name namespace-uri name string
concat starts-with contains substring-before substring-after substring
string-length normalize-space translate boolean not true false lang number sum
floor ceiling round document key format-number current unparsed-entity-uri
generate-id system-property element-available function-available'''.split())
AXES = set('''ancestor ancestor-or-self attribute child descendant
descendant-or-self following following-sibling namespace parent preceding
preceding-sibling self'''.split())


def run(ctx):
    ctx.rule('X05.elements', 'elements are produced by the XML model', 20)
    ctx.rule('X05.attributes', 'attributes are produced by the XML model', 20)
    ctx.rule('X05.values', 'compared values are values of the enumeration', 0)
    ctx.rule('X05.links', 'templates, modes, keys, variables, parameters and '
             'imports exist', 20)
    ctx.rule('X05.passed', 'stylesheets and parameters named by the program '
             'exist', 1)
    V = Vocabulary(ctx)
    src = ctx.prog.src
    files = xsl.stylesheets(src)
    if not files:
        return
    used = program_resources(ctx)
    closure = {}
    sheets = {}
    for f in files:
        try:
            sheets[f] = Sheet(ctx, f)
        except Exception as e:
            ctx.bad('X05.links', '%s: parse' % rel(src, f),
                    '%s: not well-formed: %s' % (rel(src, f), e),
                    rel(src, f))
    for f in sheets:
        closure[f] = close(ctx, src, sheets, f, report=True)
    roots = {f for f in sheets if rel(src, f) in used}
    doc = set()
    for r in roots:
        doc |= closure[r]
    # stylesheets for documents that are not used by the program
    doc |= {f for f in sheets if is_document_sheet(sheets[f], V)}
    for f, s in sheets.items():
        users = [r for r in sheets if f in closure[r]]
        Resolver(ctx, V, s, [(r, [sheets[x] for x in closure[r]])
                             for r in users], f in doc, src).run()
    params(ctx, sheets, closure, used, src)


def rel(src, f):
    return os.path.relpath(f, src)


def is_document_sheet(s, V):
    return any(e.xsl == 'template' and any(
        n in ('HwpDoc', 'BodyText', 'Paragraph', 'DocInfo')
        for n in names_in(e.attrs.get('match', '')))
        for e in s.root.walk())


def names_in(m):
    import re
    return re.findall(r'[A-Za-z]\w*', m)


# the program's side -----------------------------------------------------------
class Vocabulary:
    def __init__(self, ctx):
        self.ctx = ctx
        self.elements = {}       # name -> {attribute: None | set of values}
        self.loose = set()       # attributes that any element may get
        self.dashes, self.rules = self.expansion()
        self.lower = self.enum_case()
        self.structs()
        self.created()

    def add(self, elem, attr=None, values=None):
        d = self.elements.setdefault(elem, {})
        if attr is not None:
            old = d.get(attr, set())
            d[attr] = None if values is None or old is None else \
                set(old) | set(values)

    def expansion(self):
        """names of the attributes made of a member, by kind of its type"""
        ctx = self.ctx
        f = ctx.need_func('hwp5.xmlformat', 'expanded_xmlattribute')
        f2 = ctx.need_func('hwp5.xmlformat', 'xmlattr_dashednames')
        g = ctx.query('from hwp5.xmlformat import *\n'
                      'from hwp5.xmlformat import expanded_xmlattribute, '
                      'xmlattr_dashednames\n'
                      'def q(t, value):\n'
                      '    for k, v in xmlattr_dashednames('
                      'expanded_xmlattribute(("a_b", (t, value)))):\n'
                      '        yield k, v\n',
                      inline=lambda h, w: h in (f, f2) or
                      h.module is f.module and len(h.node.body) < 6)
        t = T('sym', 't')
        rules = {}

        def name_of(x):
            if x.op == 'class':
                return x.args[0].name
            if x.op in ('gval', 'cval'):
                return x.args[1]
            return None
        for kind in ('FlagsType', 'Margin', 'COLORREF', 'VERSION', 'HWPUNIT',
                     'SHWPUNIT', 'HWPUNIT16', 'WCHAR', 'BinStorageId', None):
            def ev(c, kind=kind):
                fn, a = fn_args(c)
                if fn is not None and fn.op == 'ext' and fn.args[0] == \
                        'builtins.isinstance' and a and a[0] is t:
                    ns = [name_of(z) for z in (
                        a[1].args if a[1].op == 'tuple' else (a[1],))]
                    if 'FlagsType' in ns:
                        return kind == 'FlagsType'
                    return None
                if c.op == 'cmp':
                    op, x, y = c.args
                    if x is t or y is t:
                        o = y if x is t else x
                        if o.op in ('tuple', 'list', 'set'):
                            r = kind in [name_of(z) for z in o.args]
                            return r == (op == 'in')
                        n = name_of(o)
                        if n and op in ('is', '==', 'is not', '!='):
                            return (n == kind) == (op in ('is', '=='))
                return None
            names, fields = set(), False
            for i in walk(g, [g.entry], ev):
                n = g.nodes[i]
                if n.kind != 'yield' or n.get('value') is None:
                    continue
                k = n.value.args[0] if n.value.op == 'tuple' else n.value
                if is_const(k):
                    names.add(cval(k))
                elif any(isinstance(s, Term) and s.op == 'attr' and
                         s.args[1] == 'dictvalue' for s in subterms(k)):
                    fields = True
                else:
                    names.add(None)
            rules[kind] = (names, fields)
        plain = rules[None][0]
        dashes = 'a_b' not in plain
        return dashes, rules

    def enum_case(self):
        """enumerated values are written in lower case"""
        f = self.ctx.need_func('hwp5.xmlformat', 'xmlattrval')
        g = self.ctx.graphs[f]
        for n in g.nodes:
            if n.kind in ('return', 'exit-return') and \
                    n.get('value') is not None:
                for s in subterms(n.value):
                    if s.op == 'attr' and s.args[1] == 'lower' and any(
                            x.op == 'attr' and x.args[1] == 'name'
                            for x in subterms(s)):
                        return True
        return False

    def dash(self, n):
        return n.replace('_', '-') if self.dashes else n

    def member_names(self, name, kind):
        names, fields = self.rules.get(kind, self.rules[None])
        out = []
        for n in names:
            if n is None:
                continue
            base = 'a-b' if self.dashes else 'a_b'
            out.append(n.replace(base, self.dash(name))
                       if base in n else n)
        return out, fields

    def structs(self):
        L = self.ctx.layout
        prog = self.ctx.prog
        subs = {}
        for ci in L.struct_classes():
            members = []
            for c in prog.mro(ci):
                if hasattr(c, "members"):
                    members += L.own_members(c) or []
            self.add(ci.name)
            for m in members:
                self.member(ci.name, m['name'], m['type'])
        del subs

    def member(self, elem, name, ty):
        if not isinstance(name, str):
            return
        if isinstance(ty, str):
            kind, _, nm = ty.partition(' ')
            if kind == 'struct' and nm != 'Margin':
                self.add(elem)
                self.add(nm, 'attribute-name', {name})
                return
            ks, _ = self.member_names(name, nm)
            if nm == 'Margin' and not ks:
                ks = [self.dash(name)]
            for k in ks:
                self.add(elem, k)
            return
        if 'struct' in ty:
            self.add(ty['struct'], 'attribute-name', {name})
            for m in ty.get('members') or ():
                self.member(ty['struct'], m['name'], m['type'])
            return
        if 'select' in ty:
            for t in ty['cases'].values():
                self.member(elem, name, t)
            return
        if 'flags' in ty:
            ks, fields = self.member_names(name, 'FlagsType')
            for k in ks:
                self.add(elem, k)
            if fields:
                for fname, lo, hi, fty in ty['fields']:
                    vals = None
                    if isinstance(fty, dict) and 'enum' in fty:
                        vals = {(x.lower() if self.lower else x)
                                for x in fty['enum']} | {
                            str(i) for i in range(min(
                                1 << (hi - lo + 1), 300))}
                    elif fty == 'int':
                        vals = {str(i) for i in range(min(
                            1 << (hi - lo + 1), 70000))}
                    self.add(elem, self.dash(fname), vals)
            return
        for k in ('array', 'narray', 'xarray'):
            if k in ty:
                it = ty[k]
                if isinstance(it, str) and it.startswith('struct ') or \
                        isinstance(it, dict) and 'struct' in it:
                    self.add('Array', 'name', {name})
                    return
                if it == 'type COLORREF':
                    for a in ('r', 'g', 'b', 'alpha', 'hex'):
                        self.add(name, a)
                    return
        ks, _ = self.member_names(name, ty.get('primitive'))
        vals = None
        if 'enum' in ty:
            vals = {(x.lower() if self.lower else x) for x in ty['enum']} \
                | {str(i) for i in range(300)}
        for k in ks:
            self.add(elem, k, vals)

    def created(self):
        """elements that transformations create, attributes that are set"""
        ctx = self.ctx
        A = Analysis(ctx)
        for f in A.gens:
            if input_loops(ctx.graphs[f]):
                A.helpers |= A.takes_events(f)
        for f, g in ctx.graphs.items():
            if not f.module.name.startswith('hwp5.'):
                continue
            cls = set()
            keys = set()
            for n in g.nodes:
                for v in values_of(n):
                    for t in subterms(v):
                        if t.op == 'tuple' and len(t.args) in (2, 3) and \
                                isinstance(t.args[0], Term) and \
                                isinstance(t.args[1], Term):
                            k = class_of(t.args[0])
                            ks = None
                            for d in alternatives(t.args[1]):
                                d = strip(d)
                                if d.op in ('dict', 'res'):
                                    k1 = dict_keys(d)
                                    if k1 is not None:
                                        ks = dict(ks or {})
                                        ks.update(k1)
                            nm = k.name if k is not None else cval(
                                t.args[0]) if is_const(t.args[0]) else None
                            if ks is not None and isinstance(nm, str):
                                self.add(nm)
                                cls.add(nm)
                                for a in ks:
                                    if isinstance(a, str):
                                        self.add(nm, self.dash(a))
                if n.kind == 'setitem' and is_const(n.key) and \
                        isinstance(cval(n.key), str):
                    keys.add(cval(n.key))
                    if n.obj.op == 'sub' or f.module.name != \
                            'hwp5.xmlmodel':
                        self.loose.add(self.dash(cval(n.key)))
            for nm in cls:
                for k in keys:
                    self.add(nm, self.dash(k))
            if f in A.gens and f not in A.helpers and \
                    f.module.name in MODULES and input_loops(g):
                self.set_by_rows(A, f)
        for nm, attrs in list(self.elements.items()):
            for a in list(attrs):
                if attrs[a] is not None and a in self.loose:
                    attrs[a] = None

    def set_by_rows(self, A, f):
        try:
            g = A.build(f, A.takes_events(f), full=True)
        except Exception:
            return
        for lp, evs in input_loops(g)[:1]:
            t = Transform(self.ctx, g, lp, evs, f)
            rows, unk = t.rows(A.balanced)
            for r in rows:
                for x, l, y in r.seq.edges:
                    n = g.nodes[x]
                    if n.kind == 'setitem' and n.obj is t.attrs and \
                            is_const(n.key):
                        k = self.dash(cval(n.key))
                        if isinstance(r.cls, str):
                            self.loose.add(k)
                        else:
                            for c in self.ctx.prog.classes:
                                if c is r.cls or self.ctx.prog.is_subclass(
                                        c, r.cls):
                                    self.add(c.name, k)

    def has(self, elems, attr):
        if attr in self.loose:
            return True
        if elems is None:
            return any(attr in d for d in self.elements.values())
        return any(attr in self.elements.get(e, {}) for e in elems)

    def values(self, elems, attr):
        """possible values of an attribute, None: anything"""
        out = set()
        if attr in self.loose:
            return None
        if elems is None:
            return None
        for e in elems:
            v = self.elements.get(e, {})
            if attr in v:
                if v[attr] is None:
                    return None
                out |= v[attr]
        return out or None


def values_of(n):
    for k in ('value', 'result'):
        v = n.get(k)
        if isinstance(v, Term):
            yield v
    for x in n.get('args') or ():
        if isinstance(x, Term):
            yield x


def program_resources(ctx):
    """stylesheets that the program names: relative path -> graph nodes"""
    out = {}
    for m in ctx.prog.modules.values():
        import ast
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and \
                    x.value.endswith('.xsl') and '%' not in x.value:
                p = os.path.join('hwp5', x.value)
                out.setdefault(p, []).append('%s:%d' % (m.relpath, x.lineno)
                                             if hasattr(m, 'relpath') else
                                             m.name)
                key = '%s: %s' % (m.name, x.value)
                if '/' in x.value and not os.path.exists(
                        os.path.join(ctx.prog.src, p)):
                    ctx.bad('X05.passed', key, '%s names the stylesheet %s, '
                            'which does not exist' % (m.name, x.value),
                            '%s:%d' % (m.name, x.lineno))
                elif '/' in x.value:
                    ctx.ok('X05.passed', key)
    return out


def params(ctx, sheets, closure, used, src):
    """parameters passed from the program are declared"""
    import ast
    declared = {e.attrs.get('name') for f in sheets
                for e in sheets[f].root.children if e.xsl == 'param'}
    for m in ctx.prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, (ast.Attribute, ast.Name)):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) \
                    else x.func.id
                if nm not in ('make_xsl_transform', 'xslt_compile'):
                    continue
                for k in x.keywords:
                    if k.arg is None:
                        continue
                    key = '%s: %s' % (m.name, k.arg)
                    if k.arg in declared or k.arg.replace('_', '-') in \
                            declared:
                        ctx.ok('X05.passed', key)
                    else:
                        ctx.bad('X05.passed', key, '%s passes the parameter '
                                '%s, which no stylesheet declares'
                                % (m.name, k.arg), m.name)


# the stylesheets' side ----------------------------------------------------------
class Sheet:
    def __init__(self, ctx, path):
        self.path = path
        rp = os.path.relpath(path, ctx.prog.src)
        ov = getattr(ctx.prog, 'overlay', None) or {}
        text = ov.get(rp)
        self.root = xsl.parse(path, text.encode('utf-8') if text else None)
        self.imports = [e for e in self.root.children
                        if e.xsl in ('import', 'include')]
        top = self.root.children
        self.templates = [e for e in top if e.xsl == 'template']
        self.named = {e.attrs['name']: e for e in self.templates
                      if 'name' in e.attrs}
        self.modes = {e.attrs.get('mode') for e in self.templates
                      if 'match' in e.attrs}
        self.keys = {e.attrs.get('name'): e for e in top if e.xsl == 'key'}
        self.globals = {e.attrs.get('name'): e for e in top
                        if e.xsl in ('variable', 'param')}
        self.sets = {e.attrs.get('name') for e in top
                     if e.xsl == 'attribute-set'}


def close(ctx, src, sheets, f, report):
    out, st = set(), [f]
    while st:
        x = st.pop()
        if x in out or x not in sheets:
            continue
        out.add(x)
        for e in sheets[x].imports:
            p = os.path.normpath(os.path.join(os.path.dirname(x),
                                              e.attrs.get('href', '')))
            key = '%s: %s' % (rel(src, x), e.attrs.get('href'))
            if p in sheets:
                st.append(p)
                if x is f:
                    ctx.ok('X05.links', key)
            elif x is f and not os.path.exists(p):
                ctx.bad('X05.links', key, '%s: the stylesheet %s does not '
                        'exist' % (rel(src, x), e.attrs.get('href')),
                        '%s:%d' % (rel(src, x), e.line))
    return out


ANY = None


class Resolver:
    """expressions of a stylesheet, evaluated over sets of element names
    (None: any element; 'text' results are the empty set)"""

    def __init__(self, ctx, V, sheet, users, doc, src):
        self.ctx, self.V, self.s, self.users = ctx, V, sheet, users
        self.doc, self.src = doc, src
        self.name = rel(src, sheet.path)
        self.line = 0
        own = [x for r, x in users if r == sheet.path]
        self.scopes = [x for r, x in users]
        self.own = own[0] if own else [sheet]

    def bad(self, rule, what, msg):
        self.ctx.bad(rule, '%s: %s' % (self.name, what), '%s: %s' % (
            self.name, msg), 'src/%s:%d' % (self.name, self.line))

    def ok(self, rule, what):
        self.ctx.ok(rule, '%s: %s' % (self.name, what))

    def find(self, get):
        """looked up in the stylesheet with what it imports, or with all of
        those that import it"""
        if get(self.own):
            return True
        rest = [x for x in self.scopes if x is not self.own]
        return bool(rest) and all(get(x) for x in rest)

    def named(self, n):
        for x in [self.own] + self.scopes:
            for s in x:
                if n in s.named:
                    return s.named[n]
        return None

    # --------------------------------------------------------------------
    def run(self):
        for e in self.s.root.children:
            self.line = e.line
            if e.xsl == 'template':
                self.template(e)
            elif e.xsl == 'key':
                c = self.pattern(e.attrs.get('match', ''))
                self.expr(e.attrs.get('use', ''), c, {}, c)
            elif e.xsl in ('variable', 'param'):
                self.body(e, {'/'}, dict.fromkeys(
                    ()), {'/'}, select=True)

    def template(self, e):
        m = e.attrs.get('match')
        c = self.pattern(m) if m is not None else ANY
        self.content(e, c, {}, c)

    def pattern(self, m):
        try:
            x = xsl.xpath(m)
        except xsl.BadXPath:
            return ANY
        out = set()
        st = [x]
        while st:
            y = st.pop()
            if y[0] == 'union':
                st += [y[1], y[2]]
                continue
            r = self.eval(y, ANY, {}, ANY)
            if y[0] == 'path' and y[1] == 'root' and not y[2]:
                r = {'/'}
            if r is ANY:
                out = None
            elif out is not None:
                out |= r
        return out

    def content(self, e, c, env, cur):
        env = dict(env)
        for k in e.children:
            self.line = k.line
            self.instr(k, c, env, cur)

    def body(self, k, c, env, cur, select=False):
        v = ANY
        if 'select' in k.attrs:
            v = self.expr(k.attrs['select'], c, env, cur)
        self.content(k, c, env, cur)
        return v

    def instr(self, k, c, env, cur):
        i = k.xsl
        a = k.attrs
        line = k.line
        if i is None or i in ('element', 'attribute'):
            for n, v in a.items():
                for x in xsl.avt(v):
                    self.expr(x, c, env, cur)
            self.content(k, c, env, cur)
            return
        if i in ('variable', 'param'):
            v = ANY
            if 'select' in a:
                v = self.expr(a['select'], c, env, cur)
                if i == 'param':
                    v = ANY
            self.content(k, c, env, cur)
            env[a.get('name')] = v
            return
        if i == 'for-each':
            v = self.expr(a.get('select', ''), c, env, cur)
            self.content(k, v, env, v)
            return
        if i == 'apply-templates':
            if 'select' in a:
                self.expr(a['select'], c, env, cur)
            m = a.get('mode')
            if m is not None:
                if self.find(lambda ss: any(m in s.modes for s in ss)):
                    self.ok('X05.links', 'mode %s' % m)
                else:
                    self.bad('X05.links', 'mode %s' % m, 'no template has '
                             'the mode %s' % m)
        if i == 'call-template':
            n = a.get('name')
            t = self.named(n)
            if not self.find(lambda ss: any(n in s.named for s in ss)):
                self.bad('X05.links', 'template %s' % n, 'there is no '
                         'template named %s' % n)
            elif t is not None:
                self.ok('X05.links', 'template %s' % n)
                ps = {x.attrs.get('name') for x in t.children
                      if x.xsl == 'param'}
                for w in k.children:
                    if w.xsl == 'with-param':
                        self.line = w.line
                        p = w.attrs.get('name')
                        if p in ps:
                            self.ok('X05.links', 'parameter %s of %s' % (
                                p, n))
                        else:
                            self.bad('X05.links', 'parameter %s of %s' % (
                                p, n), 'the template %s has no parameter %s'
                                % (n, p))
                self.line = line
        if i in ('if', 'when'):
            self.expr(a.get('test', ''), c, env, cur)
        elif i in ('value-of', 'copy-of', 'with-param', 'sort'):
            if 'select' in a:
                self.expr(a['select'], c, env, cur)
        elif i == 'number':
            for n in ('value',):
                if n in a:
                    self.expr(a[n], c, env, cur)
        for n in (a.get('use-attribute-sets') or '').split():
            if not self.find(lambda ss: any(n in s.sets for s in ss)):
                self.bad('X05.links', 'set %s' % n, 'there is no attribute '
                         'set %s' % n)
        self.content(k, c, env, cur)

    # --------------------------------------------------------------------
    def expr(self, s, c, env, cur):
        if not s:
            return ANY
        try:
            x = xsl.xpath(s)
        except xsl.BadXPath as e:
            self.bad('X05.links', 'XPath %s' % s, 'not an XPath expression: '
                     '%s' % e)
            return ANY
        return self.eval(x, c, env, cur)

    def variable(self, n, env):
        if n in env:
            return env[n]
        if self.find(lambda ss: any(n in s.globals for s in ss)):
            return ANY
        self.bad('X05.links', 'variable %s' % n,
                 'there is no variable %s in scope' % n)
        return ANY

    def eval(self, x, c, env, cur):
        k = x[0]
        if k in ('lit', 'num'):
            return set()
        if k == 'var':
            return self.variable(x[1], env)
        if k == 'neg':
            self.eval(x[1], c, env, cur)
            return set()
        if k == 'union':
            a = self.eval(x[1], c, env, cur)
            b = self.eval(x[2], c, env, cur)
            return ANY if a is ANY or b is ANY else a | b
        if k == 'bin':
            self.eval(x[2], c, env, cur)
            self.eval(x[3], c, env, cur)
            if x[1] in ('=', '!='):
                self.compare(x[2], x[3], c, env, cur)
                self.compare(x[3], x[2], c, env, cur)
            return set()
        if k == 'filter':
            a = self.eval(x[1], c, env, cur)
            for p in x[2]:
                self.eval(p, a, env, cur)
            return a
        if k == 'call':
            return self.call(x, c, env, cur)
        if k == 'path':
            return self.path(x, c, env, cur)
        return ANY

    def call(self, x, c, env, cur):
        n = x[1]
        rs = [self.eval(a, c, env, cur) for a in x[2]]
        if n == 'current':
            return cur
        if n == 'key':
            if x[2] and x[2][0][0] == 'lit':
                kn = x[2][0][1]
                if not self.find(lambda ss: any(kn in s.keys for s in ss)):
                    self.bad('X05.links', 'key %s' % kn, 'there is no key %s'
                             % kn)
                else:
                    self.ok('X05.links', 'key %s' % kn)
                    for s in self.own:
                        if kn in s.keys:
                            return self.quiet(s.keys[kn].attrs.get(
                                'match', ''))
            return ANY
        if ':' not in n and n not in FUNCTIONS:
            self.bad('X05.links', 'function %s' % n, 'there is no function '
                     '%s' % n)
        del rs
        return ANY if n in ('id', 'document') or ':' in n else set()

    def quiet(self, m):
        try:
            x = xsl.xpath(m)
        except xsl.BadXPath:
            return ANY
        if x[0] == 'path' and x[2] and x[2][-1][0] == 'child' and \
                x[2][-1][1].isidentifier():
            return {x[2][-1][1]}
        return ANY

    def path(self, x, c, env, cur):
        start, steps = x[1], x[2]
        if start == 'root':
            v = {'/'}
        elif start is None:
            v = c
        else:
            v = self.eval(start, c, env, cur)
        attr = None
        deep = False
        for axis, test, preds in steps:
            if axis not in AXES:
                self.bad('X05.links', 'axis %s' % axis, 'there is no axis %s'
                         % axis)
            if axis == 'attribute':
                attr = test
                self.attribute(v, test)
                for p in preds:
                    self.eval(p, set(), env, cur)
                continue
            if test in ('text()', 'comment()'):
                v = set()
            elif test == 'node()' and axis == 'self':
                pass
            elif test in ('node()', '*'):
                v = ANY
                deep = axis != 'self'
            else:
                v = {test} if ':' not in test else set()
                if ':' not in test:
                    self.element(test)
                deep = False
            for p in preds:
                self.eval(p, v, env, cur)
        del deep
        if attr is not None:
            return set()
        return v

    def element(self, n):
        if not self.doc:
            return
        if n in self.V.elements:
            self.ok('X05.elements', n)
        else:
            self.bad('X05.elements', n, 'selects %s elements, which the XML '
                     'model does not produce' % n)

    def attribute(self, v, n):
        if not self.doc or n == '*' or ':' in n:
            return
        if v is not ANY and not v:
            return
        if v is not ANY:
            v = {e for e in v if e != '/'}
            if not v or any(e not in self.V.elements for e in v):
                return
        if self.V.has(v, n):
            self.ok('X05.attributes', '@%s' % n)
        else:
            self.bad('X05.attributes', '%s@%s' % (
                '|'.join(sorted(v)) if v else '', n), 'selects the attribute'
                ' %s%s, which the XML model does not produce' % (
                    n, ' of %s' % ', '.join(sorted(v)) if v else ''))

    def compare(self, a, b, c, env, cur):
        """an enumerated attribute with a literal"""
        if not self.doc or b[0] != 'lit' or a[0] != 'path' or not a[2] or \
                a[2][-1][0] != 'attribute':
            return
        steps = a[2][:-1]
        v = c if a[1] is None and not steps else None
        if steps and steps[-1][0] == 'child' and steps[-1][1].isidentifier():
            v = {steps[-1][1]}
        elif a[1] not in (None, 'root') and not steps and a[1][0] == 'var':
            v = env.get(a[1][1])
        if v is None:
            return
        n = a[2][-1][1]
        vals = self.V.values(v, n)
        if vals is None:
            return
        if b[1] in vals or b[1] == '':
            self.ok('X05.values', '@%s=%s' % (n, b[1]))
        else:
            self.bad('X05.values', '%s@%s=%s' % ('|'.join(sorted(v)), n,
                                                 b[1]),
                     'compares the attribute %s of %s with %r, which is '
                     'none of its values' % (n, ', '.join(sorted(v)), b[1]))


M = 'hwp5/xmlmodel.py'
F = 'hwp5/xmlformat.py'
H = 'hwp5/xsl/hwp5html.xsl'
O = 'hwp5/xsl/odt/common.xsl'
witnesses = [
    ('section id', M, "attributes['section_id'] = sect_id",
     "attributes['section_no'] = sect_id"),
    ('no dashes', F, "yield k.replace('_', '-'), v", "yield k, v"),
    ('upper case', F, "return value.name.lower() if value.name",
     "return value.name if value.name"),
    ('margin', F, "yield '-'.join([name, pos])", "yield '-'.join([pos, name])"),
    ('margin sides', F, "for pos in ('left', 'right', 'top', 'bottom'):",
     "for pos in ('left', 'right', 'bottom'):"),
    ('flags', F, """        for k, v in t.dictvalue(t(value)).items():
            yield k, xmlattrval(v)
""", ""),
    ('member', 'hwp5/binmodel/tagid50_para_header.py', "'parashape_id'",
     "'para_shape_id'"),
    ('field', 'hwp5/binmodel/tagid61_table.py', "'cellspacing'",
     "'cell_spacing'"),
    ('token attribute', M, "                        'lang': lang,",
     "                        'language': lang,"),
    ('element', M, """class TableRow:
    pass
""", """class Row:
    pass
TableRow = Row
"""),
    ('char', M, "chunk_attributes['char'] = uch",
     "chunk_attributes['text'] = uch"),
    ('xsl element', H, 'match="TableCell"', 'match="TableCel"'),
    ('xsl attribute', H, 'select="@section-id"', 'select="@section_id"'),
    ('xsl mode', H, 'mode="css-width" />', 'mode="csswidth" />'),
    ('xsl template', H, '<xsl:call-template name="hwpunit-to-mm">',
     '<xsl:call-template name="hwpunit-to-cm">'),
    ('xsl parameter', H, '<xsl:with-param name="hwpunit" select="@width" />',
     '<xsl:with-param name="unit" select="@width" />'),
    ('xsl variable', H, 'select="$style/@name"', 'select="$styl/@name"'),
    ('xsl import', H, 'href="hwp5css-common.xsl"', 'href="hwp5-common.xsl"'),
    ('resource', 'hwp5/hwp5odt.py', "'xsl/odt/styles.xsl'",
     "'xsl/odt/style.xsl'"),
]
benign = [
    ('member call', M, "attributes['section_id'] = sect_id",
     "attributes.update(section_id=sect_id) if 0 else None\n"
     "                    attributes['section_id'] = sect_id"),
    ('dashes', F, """    for k, v in attrs:
        yield k.replace('_', '-'), v
""", """    for name, v in attrs:
        name = name.replace('_', '-')
        yield name, v
"""),
    ('lower', F, """        return value.name.lower() if value.name else str(int(value))
""", """        if not value.name:
            return str(int(value))
        name = value.name
        return name.lower()
"""),
    ('margin', F, """        for pos in ('left', 'right', 'top', 'bottom'):
            yield '-'.join([name, pos]), xmlattrval(value.get(pos))
""", """        for side in ('left', 'right', 'top', 'bottom'):
            yield name + '-' + side, xmlattrval(value.get(side))
"""),
    ('token', M, """                    token = (Text, {
                        'charshape_id': charshape_id,
                        'lang': lang,
                        'text': text,
                    }, context)
""", """                    token_attrs = dict(attributes, lang=lang, text=text)
                    token_attrs = {'charshape_id': charshape_id}
                    token_attrs['lang'] = lang
                    token_attrs['text'] = text
                    token = Text, token_attrs, context
"""),
    ('xsl variable', H, """      <xsl:variable name="stylename" select="$style/@name" />
      <xsl:variable name="stylencname" select="translate($stylename, ' ', '-')" />
""", """      <xsl:variable name="stylencname" select="translate($style/@name, ' ', '-')" />
"""),
    ('xsl axis', H, 'select="LineSeg/TableControl[@inline=\'0\']"',
     'select="child::LineSeg/child::TableControl[attribute::inline = \'0\']"'),
]
