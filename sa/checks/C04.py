# -*- coding: utf-8 -*-
"""C04 Every name and call in the program resolves."""
import ast
import builtins
import importlib
import inspect
import os
import re
import string
import sys

from ..prog import ClassInfo, FuncInfo, BUILTINS, const_py3_test, iter_scope

TECHNIQUE = ('name resolution over the scopes of every module, resolution of '
             'imports and attributes against the package and the standard '
             'library of the interpreter, binding of the arguments of every '
             'call to the signature of its target, definite assignment of '
             'local variables')
LEVEL_NOTE = ('attributes of objects whose class is not known are compared '
              'with the names that the package and the standard library '
              'define at all; loops are taken to run at least once and '
              'chains of elif to be complete; packages that are not '
              'installed are not looked into.')
EXPLANATION = '''Every name that is read is looked up in its scopes: locals of the
enclosing functions, definitions of the module and the built-in names of the
interpreter. Branches that only other major versions of the interpreter take
are left out. Imports and attributes of modules have to exist; attributes of
self have to be defined by the class, one of its bases or subclasses, or to be
stored somewhere. Arguments of calls have to fit the parameters of a function
that the call can reach.'''

GUARDS = {'ImportError', 'ModuleNotFoundError', 'Exception', 'AttributeError',
          'NameError', 'BaseException', 'KeyError'}
STD = set(sys.stdlib_module_names)
OWN = {'hwp5', 'six', 'pkg_resources'}
JYTHON = {'java', 'javax', 'jarray', 'org', 'com'}


def run(ctx):
    ctx.rule('C04.names', 'every name that is read has a definition', 500)
    ctx.rule('C04.imports', 'every import finds its module and name', 100)
    ctx.rule('C04.modules', 'attributes of modules exist', 50)
    ctx.rule('C04.classes', 'attributes of classes and of self exist', 100)
    ctx.rule('C04.vocabulary', 'attributes of other objects are defined '
             'anywhere', 300)
    ctx.rule('C04.calls', 'arguments fit the parameters of the target', 100)
    ctx.rule('C04.formats', 'format strings get the values they ask for', 20)
    ctx.rule('C04.assigned', 'local variables are assigned before they are '
             'read', 100)
    ctx.rule('C04.keys', 'keys that are read from dictionaries are stored '
             'anywhere', 100)
    ctx.rule('C04.resources', 'resources of the package that are named exist',
             3)
    p = Checker(ctx)
    p.keys()
    for m in ctx.prog.modules.values():
        p.module(m)
    p.resources()


def dead(node, m):
    """statements of a node that cannot be executed"""
    if isinstance(node, (ast.If, ast.IfExp)):
        v = const_py3_test(node.test)
        if v is None:
            v = platform(node.test, m)
        if v is True:
            o = node.orelse
        elif v is False:
            o = node.body
        else:
            return ()
        return o if isinstance(o, list) else [o]
    return ()


def platform(test, m):
    """value of tests for the Java platform, which has another interpreter"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = platform(test.operand, m)
        return None if v is None else not v
    if isinstance(test, ast.Name):
        bs = m.bindings.get(test.id, ())
        if len(bs) == 1 and bs[0].kind == 'expr' and not isinstance(
                bs[0].value, ast.Name):
            return platform(bs[0].value, m)
        return None
    if isinstance(test, (ast.Call, ast.Compare)) and any(
            isinstance(x, ast.Attribute) and x.attr == 'platform' and
            isinstance(x.value, ast.Name) and x.value.id == 'sys'
            for x in ast.walk(test)) and any(
            isinstance(x, ast.Constant) and isinstance(x.value, str) and
            x.value.startswith('java') for x in ast.walk(test)):
        if isinstance(test, ast.Call) or isinstance(test.ops[0], ast.Eq):
            return False
    return None


def handled(try_):
    out = set()
    for h in try_.handlers:
        if h.type is None:
            out.add('BaseException')
            continue
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            out.add(t.attr if isinstance(t, ast.Attribute) else
                    getattr(t, 'id', '?'))
    return out


def comp_names(n):
    out = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                out.add(x.id)
    return out


def std(dotted):
    """(found, object) of a dotted name of the standard library; None if it
    is not of the standard library"""
    parts = dotted.split('.')
    if parts[0] != 'builtins' and parts[0] not in STD:
        return None
    try:
        o = importlib.import_module(parts[0])
    except Exception:
        return None
    for i, p in enumerate(parts[1:], 1):
        if hasattr(o, p):
            o = getattr(o, p)
            continue
        if inspect.ismodule(o):
            try:
                o = importlib.import_module('.'.join(parts[:i + 1]))
                continue
            except Exception:
                return False, None
        if inspect.isclass(o) or callable(o):
            # only what is decided for classes and functions
            return False, None
        return None
    return True, o


VOCAB = None


def std_vocabulary():
    global VOCAB
    if VOCAB is None:
        import io, logging, subprocess, argparse, collections, zipfile, zlib
        import codecs, datetime, tempfile, threading, uuid, re as re_
        import xml.etree.ElementTree as ET
        import xml.sax.saxutils as su
        import configparser, json, struct, shutil, itertools, functools
        import contextlib, types, pathlib, array, hashlib, inspect as insp
        import importlib.resources, gettext
        v = set()
        for o in list(vars(builtins).values()) + [
                y for mod in (io, logging, subprocess, argparse, collections,
                              zipfile, zlib, codecs, datetime, tempfile,
                              threading, uuid, re_, ET, su, configparser,
                              json, struct, itertools, functools, contextlib,
                              types, pathlib, array, hashlib, gettext)
                for y in vars(mod).values()]:
            if isinstance(o, type) or inspect.isfunction(o):
                v |= set(dir(o))
        p = subprocess.Popen.__init__.__code__.co_names
        v |= set(p)
        v |= set(dir(sys.stdout)) | set(dir(open(os.devnull)))
        v |= set(dir(zlib.compressobj())) | set(dir(zlib.decompressobj()))
        v |= set(dir(hashlib.sha1()))
        v |= set(dir(argparse.ArgumentParser()))
        v |= set(dir(ET.Element('a')))
        v |= set(dir(logging.getLogger()))
        v |= set(dir(zipfile.ZipInfo()))
        v |= set(dir(sys.version_info)) | set(dir(re_.compile('a')))
        v |= set(dir(re_.match('a', 'a')))
        v |= {'returncode', 'stdin', 'stdout', 'stderr', 'pid', 'encoding',
              'buffer', 'errno', 'strerror', 'filename', 'args', 'errors',
              'newlines', 'mode', 'name', 'closed', 'wbits', 'queue',
              'func', 'message', 'text', 'tail', 'attrib', 'tag', 'cmd',
              'output', 'softspace', 'line', 'lineno'}
        VOCAB = v
    return VOCAB


def unreached(tree):
    """statements that follow a return, raise, break or continue"""
    out = set()
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            sts = getattr(n, f, None)
            if not isinstance(sts, list):
                continue
            over = False
            for st in sts:
                if over:
                    out.add(id(st))
                over = over or isinstance(st, (
                    ast.Return, ast.Raise, ast.Break, ast.Continue))
    return out


class Checker:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = ctx.prog
        self.indexed = set()
        self.stored = set()       # names stored as attributes anywhere
        self.methods = {}         # name -> [FuncInfo]
        self.defined = set()
        for m in self.prog.modules.values():
            self.defined |= set(m.bindings)
            self.defined.add(m.name.rpartition('.')[2])
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call):
                    self.dynamic(m, n)
        for c in self.prog.classes:
            self.defined |= set(c.members)
            for nm, bs in c.members.items():
                for b in bs:
                    if b.kind == 'func':
                        self.methods.setdefault(nm, []).append(b.value)
        self.defined |= self.stored
        self._family = {}
        self.in_self, self.outside = self.insides()
        self.constants = set()
        self.foreigners = set()
        for m in self.prog.modules.values():
            if m.is_pkg and {n.split('.')[0] for n in imported(m.tree)} - \
                    STD - OWN:
                self.foreigners |= {
                    x for x in self.prog.modules
                    if x.startswith(m.name + '.') and
                    m.name.count('.') > 1}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    self.constants.add(n.value)
                if isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                        n.slice.value, str):
                    # dictionaries of classes that are made
                    self.defined.add(n.slice.value)
                    self.indexed.add(n.slice.value)

    def dynamic(self, m, n):
        """names defined through setattr(), type(), namedtuple(), arguments
        of argparse"""
        f = n.func.attr if isinstance(n.func, ast.Attribute) else \
            getattr(n.func, 'id', None)
        if f == 'setattr' and len(n.args) == 3 and isinstance(
                n.args[1], ast.Constant):
            self.stored.add(n.args[1].value)
        elif f == 'namedtuple' and len(n.args) >= 2:
            for x in ast.walk(n.args[1]):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    self.stored |= set(x.value.replace(',', ' ').split())
        elif f == 'add_argument':
            for a in n.args:
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    self.stored.add(a.value.lstrip('-').replace('-', '_'))
            for k in n.keywords:
                if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                    self.stored.add(k.value.value)
        elif f in ('set_defaults', 'add_subparsers', 'Namespace', 'type',
                   'dict', 'update'):
            for k in n.keywords:
                if k.arg:
                    self.stored.add(k.arg)
                if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                    self.stored.add(k.value.value)
        elif f in ('Enum', 'Flags') or f == 'type':
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) \
                        and x.value.isidentifier():
                    self.stored.add(x.value)
                elif isinstance(x, ast.keyword) and x.arg:
                    self.stored.add(x.arg)

    # -- modules
    def module(self, m):
        self.m = m
        tops = {n.split('.')[0] for n in imported(m.tree)}
        self.jython = bool(tops & JYTHON)
        self.foreign = bool(tops - STD - OWN) or \
            m.name in self.foreigners
        self.others = self.for_other_platforms(m)
        self.unreached = unreached(m.tree)
        self.dyn = self.prog.dynamic_names(m)
        self.opaque = any(b not in self.prog.modules for b in m.star_imports)
        self.scope(m.tree.body, None, (), 'module')

    def for_other_platforms(self, m):
        """functions that are only named where this interpreter never
        gets"""
        skip = set()
        for n in ast.walk(m.tree):
            for d in dead(n, m):
                skip |= {id(x) for x in ast.walk(d)}
        if not skip:
            return set()
        names = {}
        for mm in self.prog.modules.values():
            for n in ast.walk(mm.tree):
                if isinstance(n, ast.Name):
                    names.setdefault(n.id, []).append(id(n) in skip)
                elif isinstance(n, ast.Attribute):
                    names.setdefault(n.attr, []).append(False)
                elif isinstance(n, ast.alias):
                    names.setdefault(n.name, []).append(False)
        return {x.node for x in self.prog.functions if x.module is m and
                names.get(x.name) and all(names[x.name])}

    def loc(self, n):
        return 'src/%s:%s' % (self.m.name.replace('.', '/') + (
            '/__init__.py' if self.m.is_pkg else '.py'),
            getattr(n, 'lineno', '?'))

    def scope(self, body, fn, scopes, kind, cls=None):
        """scopes: names of the enclosing scopes, innermost last"""
        for st in body:
            self.visit(st, fn, scopes, frozenset(), cls)

    def visit(self, n, fn, scopes, guards, cls):
        if n in self.others or id(n) in self.unreached:
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                for d in n.decorator_list:
                    self.visit(d, fn, scopes, guards, cls)
            for d in n.args.defaults + [x for x in n.args.kw_defaults
                                        if x is not None]:
                self.visit(d, fn, scopes, guards, cls)
            fi = self.prog.func_by_node.get(n)
            if fi is not None:
                names = fi.local_names
            else:
                names = {x.arg for x in ast.walk(n.args)
                         if isinstance(x, ast.arg)}
            inner = [s for s in scopes if s[0] != 'class'] + [
                ('func', names)]
            b = [n.body] if isinstance(n, ast.Lambda) else n.body
            for st in b:
                self.visit(st, fi or fn, tuple(inner), guards,
                           fi.cls if fi else cls)
            if fi is not None and not isinstance(n, ast.Lambda):
                Assigned(self, fi).run()
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + \
                    [k.value for k in n.keywords]:
                self.visit(d, fn, scopes, guards, cls)
            ci = self.prog.class_by_node.get(n)
            names = set(ci.members) if ci else set()
            for st in n.body:
                self.visit(st, fn, scopes + (('class', names),), guards, ci)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            inner = scopes + (('comp', comp_names(n)),)
            for c in ast.iter_child_nodes(n):
                self.visit(c, fn, inner, guards, cls)
            return
        if isinstance(n, ast.Try):
            for st in n.body:
                self.visit(st, fn, scopes, guards | handled(n), cls)
            g = guards
            if handled(n) & {'ImportError', 'ModuleNotFoundError',
                             'AttributeError', 'NameError', 'KeyError'}:
                # what is left to do for other versions
                g = guards | {'ImportError', 'AttributeError', 'NameError'}
            for st in n.handlers:
                self.visit(st, fn, scopes, g, cls)
            for st in n.orelse + n.finalbody:
                self.visit(st, fn, scopes, guards, cls)
            return
        self.node(n, fn, scopes, guards, cls)
        d = dead(n, self.m)
        for c in ast.iter_child_nodes(n):
            if any(c is x for x in d):
                continue
            g = guards
            if isinstance(n, ast.If) and c in n.body and any(
                    isinstance(x, ast.Call) and getattr(x.func, 'id', '') ==
                    'hasattr' for x in ast.walk(n.test)):
                g = guards | {'AttributeError'}
            self.visit(c, fn, scopes, g, cls)

    # -- single nodes
    def node(self, n, fn, scopes, guards, cls):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.name(n, fn, scopes, guards)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            self.import_(n, guards)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attribute(n, fn, scopes, guards, cls)
        elif isinstance(n, ast.Call):
            self.call(n, fn, scopes, guards, cls)
            self.logcall(n)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.percent(n)

    def name(self, n, fn, scopes, guards):
        i = n.id
        what = '%s:%s: %s' % (self.m.name, fn.qualname if fn else '<module>',
                              i)
        ok = any(i in s for k, s in scopes) or i in self.m.bindings or \
            i in BUILTINS or hasattr(builtins, i) or i in self.dyn or \
            i in ('__name__', '__file__', '__doc__', '__package__',
                  '__path__', '__class__', '__spec__', '__loader__',
                  '__qualname__', '__module__')
        if not ok:
            ok = bool(self.prog.lookup(self.m, i)) or self.opaque or any(
                i in (f._globals or ()) for f in self.prog.functions
                if f.module is self.m and f.local_names is not None)
        if not ok and (guards & {'NameError', 'Exception', 'BaseException'} or
                       self.jython and i in ('unicode', 'xrange', 'long',
                                             'basestring', 'unichr')):
            return
        self.ctx.check(ok, 'C04.names', what, 'the name is not defined',
                       self.loc(n))

    def import_(self, n, guards):
        if guards & {'ImportError', 'ModuleNotFoundError', 'Exception',
                     'BaseException'} and not self.inside(n):
            return
        if isinstance(n, ast.Import):
            wanted = [(a.name, None) for a in n.names]
        else:
            wanted = [(self.prog._import_base(self.m, n), a.name)
                      for a in n.names]
        for base, nm in wanted:
            what = '%s: %s%s' % (self.m.name, base, '.' + nm if nm else '')
            if base.split('.')[0] == 'hwp5':
                mod = self.prog.modules.get(base)
                ok = mod is not None and (
                    nm in (None, '*') or bool(self.prog.lookup(mod, nm)) or
                    base + '.' + nm in self.prog.modules or any(
                        b not in self.prog.modules
                        for b in mod.star_imports))
            else:
                r = std(base + ('.' + nm if nm and nm != '*' else ''))
                if r is None:
                    if base.split('.')[0] in STD or installed(
                            base.split('.')[0]) is not False:
                        continue
                    ok = self.foreign and self.optional(n)
                    if ok:
                        continue
                else:
                    ok = r[0]
            self.ctx.check(ok, 'C04.imports', what,
                           'there is nothing like this to import',
                           self.loc(n))

    def inside(self, n):
        """an import of the package itself has to work even if guarded"""
        if isinstance(n, ast.Import):
            return all(a.name.split('.')[0] == 'hwp5' for a in n.names)
        return self.prog._import_base(self.m, n).split('.')[0] == 'hwp5'

    def optional(self, n):
        return True

    def resolve(self, e, fn, scopes):
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name):
            return []
        for k, s in reversed(scopes):
            if root.id in s:
                if k == 'func':
                    break
                return []
        ents = self.prog.resolve_expr(self.m, e, fn)
        if any(x[0] not in ('module', 'ext', 'class', 'func') for x in ents):
            return []
        return ents

    def attribute(self, n, fn, scopes, guards, cls):
        if guards & {'AttributeError', 'Exception', 'BaseException'}:
            return
        if n.attr.startswith('__') and n.attr.endswith('__'):
            return
        what = '%s:%s: %s' % (self.m.name, fn.qualname if fn else '<module>',
                              ast.unparse(n)[:60])
        ents = self.resolve(n.value, fn, scopes)
        if ents:
            res = [self.has(e, n.attr) for e in ents]
            if None in res:
                return
            rule = 'C04.classes' if ents[0][0] == 'class' else 'C04.modules'
            self.ctx.check(any(res), rule, what, 'there is no such attribute',
                           self.loc(n))
            return
        if self.structure(fn):
            return
        if isinstance(n.value, ast.Name) and self.is_self(n.value.id, fn):
            ci = self.owner(fn)
            r = self.of_self(ci, n.attr)
            if r is not None:
                self.ctx.check(r, 'C04.classes', what,
                               '%s has no such attribute' % ci.name,
                               self.loc(n))
            return
        if self.foreign:
            return
        ok = n.attr in self.defined or n.attr in std_vocabulary()
        self.ctx.check(ok, 'C04.vocabulary', what, 'no class or module has '
                       'an attribute of this name', self.loc(n))

    def structure(self, fn):
        """a method for objects of a class that has none: structures are
        classes that describe dictionaries"""
        ci = self.owner(fn)
        if ci is None or self.prog.metaclass(ci) is None:
            return False
        while fn.cls is None:
            fn = fn.parent
        return bool(fn.params) and fn.params[0] == 'self'

    def owner(self, fn):
        while fn is not None and fn.cls is None:
            fn = fn.parent
        return fn.cls if fn else None

    def is_self(self, i, fn):
        f = fn
        while f is not None:
            if f.cls is not None and not f.is_lambda:
                ds = {getattr(d, 'id', '') for d in f.decorators}
                return bool(f.params) and f.params[0] == i and \
                    'staticmethod' not in ds and i in ('self', 'cls')
            if i in f.local_names:
                return False
            f = f.parent
        return False

    def has(self, e, attr):
        """True/False, None if unknown"""
        if e[0] == 'module':
            m = self.prog.modules[e[1]]
            if self.prog.lookup(m, attr) or \
                    e[1] + '.' + attr in self.prog.modules or \
                    attr in self.stored:
                return True
            return None if any(b not in self.prog.modules
                               for b in m.star_imports) else False
        if e[0] == 'ext':
            r = std(e[1] + '.' + attr)
            return None if r is None else r[0]
        if e[0] == 'class':
            return self.of_self(e[1], attr)
        return None

    def family(self, ci):
        if ci not in self._family:
            fam = set(self.prog.mro(ci))
            for s in self.prog.subclasses(ci):
                fam |= set(self.prog.mro(s))
            self._family[ci] = fam
        return self._family[ci]

    def of_self(self, ci, attr):
        if ci is None:
            return None
        known = True
        names = set()
        fam = self.family(ci)
        meta = self.prog.metaclass(ci)
        if meta is not None:
            if not isinstance(meta, ClassInfo):
                return None
            fam = fam | set(self.prog.mro(meta))
            for s in self.prog.subclasses(meta):
                fam |= set(self.prog.mro(s))
        for c in fam:
            if isinstance(c, ClassInfo):
                names |= set(c.members)
                if any(isinstance(x, ast.Call) and getattr(
                        x.func, 'id', '') in ('vars', 'locals')
                       for st in c.node.body if not isinstance(
                           st, (ast.FunctionDef, ast.ClassDef))
                       for x in ast.walk(st)):
                    names |= self.constants
                if any(isinstance(x, ast.Call) and getattr(
                        x.func, 'id', '') == 'setattr' and
                       len(x.args) == 3 and not isinstance(
                           x.args[1], ast.Constant)
                       for x in ast.walk(c.module.tree)):
                    names |= {x.value for x in ast.walk(c.module.tree)
                              if isinstance(x, ast.Constant) and
                              isinstance(x.value, str)}
                if meta is not None:
                    names |= self.indexed
                if '__getattr__' in c.members or \
                        '__getattribute__' in c.members:
                    return None
                for b in c.node.bases:
                    if self.prog.resolve_expr_class(
                            c.module, b, c.parent) is None and not isinstance(
                            b, ast.Call):
                        known = False
                    if isinstance(b, ast.Call) and getattr(
                            b.func, 'id', getattr(b.func, 'attr', '')) == \
                            'namedtuple':
                        for x in ast.walk(b):
                            if isinstance(x, ast.Constant) and isinstance(
                                    x.value, str):
                                names |= set(x.value.replace(
                                    ',', ' ').split())
                    elif isinstance(b, ast.Call) and not any(
                            x == ('ext', 'six.with_metaclass')
                            for x in self.prog.resolve_expr(
                                c.module, b.func, c.parent)):
                        known = False
            else:
                r = std(c[1])
                if r is None or not r[0]:
                    known = False
                else:
                    names |= set(dir(r[1]))
        if attr in names or hasattr(type, attr):
            return True
        if attr in self.stored and (
                meta is not None or not known or attr in self.outside or
                any(attr in self.in_self.get(c, ()) or self.open_ended(c)
                    for c in fam if isinstance(c, ClassInfo))):
            return True
        return False if known else None

    def insides(self):
        """attributes that methods store in self, by class; those which are
        stored in other objects"""
        inside, mine = {}, set()
        for fn in self.prog.functions:
            ci = self.owner(fn)
            if ci is None:
                continue
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and isinstance(
                        n.value, ast.Name) and self.is_self(n.value.id, fn):
                    inside.setdefault(ci, set()).add(n.attr)
                    mine.add(id(n))
        outside = set()
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and id(n) not in mine:
                    outside.add(n.attr)
                elif isinstance(n, ast.Call) and getattr(
                        n.func, 'id', '') == 'setattr' and \
                        len(n.args) == 3 and isinstance(
                            n.args[1], ast.Constant):
                    outside.add(n.args[1].value)
        return inside, outside

    def open_ended(self, c):
        """a class whose objects get attributes in other ways"""
        for x in ast.walk(c.node):
            if isinstance(x, ast.Attribute) and x.attr == '__dict__' or \
                    isinstance(x, ast.Call) and getattr(
                        x.func, 'id', '') in ('vars', 'setattr'):
                return True
        return False

    # -- calls
    def call(self, n, fn, scopes, guards, cls):
        if guards & {'TypeError', 'Exception', 'BaseException'}:
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(
                k.arg is None for k in n.keywords):
            return
        what = '%s:%s: %s' % (self.m.name, fn.qualname if fn else '<module>',
                              ast.unparse(n)[:70])
        ents = self.resolve(n.func, fn, scopes)
        sigs = []
        if ents:
            for e in ents:
                s = self.signature(e)
                if s is None:
                    return
                sigs.append(s)
        elif isinstance(n.func, ast.Attribute):
            nm = n.func.attr
            v = n.func.value
            if isinstance(v, ast.Name) and self.is_self(v.id, fn):
                ci = self.owner(fn)
                fs = [b.value for c in self.family(ci)
                      if isinstance(c, ClassInfo)
                      for b in c.members.get(nm, ())]
                if nm in self.stored or not fs or not all(
                        isinstance(f, FuncInfo) for f in fs):
                    return
                sigs = [self.of_func(f, v.id == 'self') for f in fs]
                if v.id == 'cls':
                    sigs += [self.of_func(f, True) for f in fs]
            else:
                if nm in std_vocabulary() or nm in self.stored or \
                        self.foreign or nm not in self.methods:
                    return
                for m in self.prog.modules.values():
                    for b in m.bindings.get(nm, ()):
                        if b.kind == 'func':
                            sigs.append(self.of_func(b.value, False))
                        elif b.kind != 'importfrom':
                            return
                for f in self.methods[nm]:
                    sigs.append(self.of_func(f, True))
                    sigs.append(self.of_func(f, False))
                # other kinds of members of that name
                if any(b.kind != 'func' for c in self.prog.classes
                       for b in c.members.get(nm, ())):
                    return
        if not sigs or any(s is None for s in sigs):
            return
        self.ctx.check(any(accepts(s, n) for s in sigs), 'C04.calls', what,
                       'the arguments do not fit', self.loc(n))

    def of_func(self, f, bound):
        """signature (params, defaults, vararg, kwonly, kwarg)"""
        ds = []
        for d in f.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            ds.append(getattr(d, 'id', getattr(d, 'attr', '?')))
        if set(ds) - {'staticmethod', 'classmethod', 'contextmanager',
                      'wraps', 'abstractmethod'}:
            return None
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        static = 'staticmethod' in ds
        if f.cls is not None:
            for b in f.cls.members.get(f.name, ()):
                if b.kind != 'func':
                    v = getattr(b, 'value', None)
                    if isinstance(v, ast.Call):
                        nm = getattr(v.func, 'id', '')
                        if nm == 'staticmethod':
                            static = True
                        elif nm == 'classmethod':
                            ds.append('classmethod')
        if (bound or 'classmethod' in ds) and not static:
            if not ps:
                return None if a.vararg is None else \
                    ([], 0, True, {}, bool(a.kwarg))
            ps = ps[1:]
        ko = {x.arg: d is not None for x, d in zip(a.kwonlyargs,
                                                   a.kw_defaults)}
        return (ps, len(a.defaults), bool(a.vararg), ko, bool(a.kwarg))

    def signature(self, e):
        if e[0] == 'func':
            return self.of_func(e[1], False)
        if e[0] == 'class':
            ci = e[1]
            if self.prog.metaclass(ci) is not None:
                return None
            for c in self.prog.mro(ci):
                if isinstance(c, ClassInfo):
                    if '__new__' in c.members:
                        return None
                    if '__init__' in c.members:
                        f = self.prog.method(c, '__init__')
                        return self.of_func(f, True) if f else None
                elif c[1] not in ('builtins.object', 'object'):
                    return None
            bs = self.prog.base_classes(ci)
            if any(b is None for b in bs):
                return None
            return ([], 0, False, {}, False)
        if e[0] == 'ext':
            r = std(e[1])
            if r is None or not r[0]:
                return None
            o = r[1]
            if not callable(o):
                return None
            if inspect.isclass(o) and e[1].startswith('builtins.'):
                return None
            try:
                s = inspect.signature(o)
            except (ValueError, TypeError):
                return None
            return s
        return None

    # -- formats
    def text(self, e):
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, (str, bytes)) else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text(e.left), self.text(e.right)
            return a + b if a is not None and type(a) is type(b) else None
        return None

    def percent(self, n):
        t = self.text(n.left)
        if t is None:
            return
        keys, count = conversions(t)
        what = '%s: %r %% %s' % (self.m.name, t[:30],
                                 ast.unparse(n.right)[:40])
        if isinstance(n.right, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in n.right.elts):
                return
            ok = not keys and count == len(n.right.elts)
        elif isinstance(n.right, ast.Dict):
            ks = {getattr(k, 'value', None) for k in n.right.keys}
            ok = None in ks or keys <= ks and count == 0
        elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.List,
                                  ast.ListComp)):
            ok = count == 1
        else:
            ok = bool(keys) or count >= 1
        self.ctx.check(ok, 'C04.formats', what, 'the values do not fit the '
                       'format', self.loc(n))

    def logcall(self, n):
        f = n.func
        if not isinstance(f, ast.Attribute):
            return
        if f.attr == 'format':
            t = self.text(f.value)
            if not isinstance(t, str) or any(
                    isinstance(a, ast.Starred) for a in n.args) or any(
                    k.arg is None for k in n.keywords):
                return
            try:
                fields = [x[1] for x in string.Formatter().parse(t)
                          if x[1] is not None]
            except ValueError:
                fields = None
            ok = fields is not None
            if ok:
                auto = 0
                kws = {k.arg for k in n.keywords}
                for x in fields:
                    x = re.split(r'[.\[]', x)[0]
                    if x == '':
                        ok = ok and auto < len(n.args)
                        auto += 1
                    elif x.isdigit():
                        ok = ok and int(x) < len(n.args)
                    else:
                        ok = ok and x in kws
            self.ctx.check(ok, 'C04.formats', '%s: %r.format' % (
                self.m.name, t[:30]), 'the values do not fit the format',
                self.loc(n))
            return
        if f.attr not in ('debug', 'info', 'warning', 'warn', 'error',
                          'critical', 'exception', 'log'):
            return
        nm = getattr(f.value, 'id', getattr(f.value, 'attr', ''))
        if not re.search('log', nm, re.I):
            return
        args = n.args[1:] if f.attr == 'log' else n.args
        if not args or any(isinstance(a, ast.Starred) for a in n.args):
            return
        t = self.text(args[0])
        if t is None or not isinstance(t, str):
            return
        keys, count = conversions(t)
        vals = args[1:]
        if not vals:
            return
        ok = len(vals) == 1 and bool(keys) or not keys and \
            count == len(vals) or len(vals) == 1 and isinstance(
                vals[0], ast.Name) and keys
        self.ctx.check(ok, 'C04.formats', '%s: log %r' % (
            self.m.name, t[:40]), '%d values for %d conversions' % (
            len(vals), count), self.loc(n))

    # -- keys
    def keys(self):
        uses, made = [], set()
        for m in self.prog.modules.values():
            read = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                        n.slice.value, str):
                    if isinstance(n.ctx, ast.Load):
                        uses.append((m, n, n.slice.value))
                        read.add(id(n.slice))
                elif isinstance(n, ast.Compare) and isinstance(
                        n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        n.left, ast.Constant):
                    read.add(id(n.left))
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and \
                            n.func.attr in ('get', 'pop') and n.args:
                        read.add(id(n.args[0]))
                    for k in n.keywords:
                        if k.arg:
                            made.add(k.arg)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(
                        n.value, str) and id(n) not in read:
                    made.add(n.value)
                    made |= set(n.value.split())
        # names of the standard library: mappings that come from outside
        made |= self.stored | self.defined
        for m, n, k in uses:
            self.m = m
            owner = ast.unparse(n.value)
            if owner.endswith('environ'):
                continue
            self.ctx.check(k in made, 'C04.keys', '%s: %s' % (
                m.name, ast.unparse(n)[:60]), 'no dictionary has this key',
                self.loc(n))

    # -- resources
    def resources(self):
        root = os.path.join(self.prog.src, 'hwp5')
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                        and re.match(r'(xsl|odf-relaxng|locale)/[\w./-]+$',
                                     n.value):
                    self.ctx.check(
                        os.path.exists(os.path.join(root, n.value)),
                        'C04.resources', '%s: %s' % (m.name, n.value),
                        'there is no such resource')


def conversions(t):
    if isinstance(t, bytes):
        t = t.decode('latin-1')
    keys, count = set(), 0
    for m in re.finditer(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?'
                         r'[hlL]?([a-zA-Z%])', t):
        if m.group(4) == '%':
            continue
        if m.group(1):
            keys.add(m.group(1))
        else:
            count += 1 + (m.group(2) == '*') + (m.group(3) == '*')
    return keys, count


def accepts(sig, call):
    if isinstance(sig, inspect.Signature):
        try:
            sig.bind(*[0] * len(call.args),
                     **{k.arg: 0 for k in call.keywords})
            return True
        except TypeError:
            return False
    ps, nd, var, ko, kw = sig
    n = len(call.args)
    if n > len(ps) and not var:
        return False
    given = set(ps[:n])
    for k in call.keywords:
        if k.arg in given:
            return False
        if k.arg not in ps and k.arg not in ko and not kw:
            return False
        given.add(k.arg)
    need = ps[:len(ps) - nd]
    if any(p not in given for p in need):
        return False
    return all(d or p in given for p, d in ko.items())


def imported(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                yield a.name
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            yield n.module


def installed(top):
    """True if a distribution offers the module, False if not, None if not
    known"""
    found = None
    for base in sys.path + site_packages():
        if base and os.path.isdir(base):
            if base.endswith('site-packages'):
                found = found or False
            for f in (top, top + '.py'):
                if os.path.exists(os.path.join(base, f)):
                    return True
    return found


def site_packages():
    out = []
    for v in ('/opt/venv',):
        lib = os.path.join(v, 'lib')
        if os.path.isdir(lib):
            for d in sorted(os.listdir(lib)):
                out.append(os.path.join(lib, d, 'site-packages'))
    return out


# -- definite assignment -------------------------------------------------------

class Assigned:
    """Names assigned on every way to a statement. A loop is taken to run,
    and the last branch of a chain of tests to be taken."""

    def __init__(self, checker, fi):
        self.c = checker
        self.fi = fi
        a = fi.node.args
        self.params = {x.arg for x in ast.walk(a) if isinstance(x, ast.arg)}
        self.locals = fi.local_names - self.params
        self.loop = 0

    def run(self):
        self.tests = []
        self.cond = {}         # name -> texts of tests it depends on
        self.bad = set()
        self.block(self.fi.node.body, set(self.params))
        g = {n for n in self.locals}
        for n in sorted(g):
            hit = [x for i, x in self.bad if i == n]
            what = '%s: %s' % (self.fi.fullname, n)
            if hit:
                self.c.ctx.bad('C04.assigned', what, 'the variable may not '
                               'have a value here',
                               self.c.loc(hit[0]))
            else:
                self.c.ctx.ok('C04.assigned', what)

    def use(self, e, s):
        """reads in an expression"""
        if e is None:
            return
        st = [e]
        while st:
            n = st.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                own = comp_names(n)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and x.id not in own:
                        self.read(x, s)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.read(n, s)
            if isinstance(n, ast.NamedExpr):
                self.use(n.value, s)
                s.add(n.target.id)
                continue
            st.extend(ast.iter_child_nodes(n))

    def read(self, n, s):
        if isinstance(n.ctx, ast.Load) and n.id in self.locals and \
                n.id not in s:
            dep = self.cond.get(n.id)
            if dep is not None:
                names = {x for t in self.tests for x in t[1]}
                if any(t[0] in dep[0] for t in self.tests) or \
                        names & dep[1]:
                    return
            self.bad.add((n.id, n))

    def store(self, t, s):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                s.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.read(x, s)

    def block(self, body, s):
        """names assigned afterwards; None if the end is not reached"""
        for st in body:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    def merge(self, outs, tests, names):
        outs = [o for o in outs if o is not None]
        if not outs:
            return None
        r = set.intersection(*outs)
        for n in set.union(*outs) - r:
            d = self.cond.setdefault(n, (set(), set()))
            d[0].update(tests)
            d[1].update(names)
        return r

    def stmt(self, st, s):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef,
                           ast.ClassDef)):
            return s | {st.name}
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            return s | {(a.asname or a.name).split('.')[0] for a in st.names}
        if isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.use(c, s)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.Assign):
            self.use(st.value, s)
            s = set(s)
            for t in st.targets:
                self.store(t, s)
            return s
        if isinstance(st, ast.AugAssign):
            self.use(st.value, s)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.locals and st.target.id not in s:
                    self.bad.add((st.target.id, st.target))
                return s | {st.target.id}
            self.use(st.target, s)
            return s
        if isinstance(st, ast.AnnAssign):
            self.use(st.value, s)
            if st.value is not None and isinstance(st.target, ast.Name):
                return s | {st.target.id}
            return s
        if isinstance(st, ast.Delete):
            s = set(s)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(
                        ast.Name(t.id, ast.Load()), t), s)
                    s.discard(t.id)
                else:
                    self.use(t, s)
            return s
        if isinstance(st, ast.If):
            return self.if_(st, s)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self.use(st.iter, s)
            b = set(s)
            self.store(st.target, b)
            self.loop += 1
            r = self.block(st.body, b)
            self.loop -= 1
            inner = b | assigned_in(st.body)
            return self.block(st.orelse, inner) if st.orelse else inner
        if isinstance(st, ast.While):
            self.use(st.test, s)
            self.loop += 1
            self.block(st.body, set(s))
            self.loop -= 1
            forever = isinstance(st.test, ast.Constant) and st.test.value
            if forever and not has_break(st.body):
                return None
            inner = set(s) | assigned_in(st.body)
            return self.block(st.orelse, inner) if st.orelse else inner
        if isinstance(st, ast.With):
            s = set(s)
            for it in st.items:
                self.use(it.context_expr, s)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, s)
            return self.block(st.body, s)
        if isinstance(st, ast.Try):
            return self.try_(st, s)
        if isinstance(st, ast.Expr):
            self.use(st.value, s)
            if never_returns(st.value):
                return None
            return s
        if isinstance(st, ast.Assert):
            self.use(st.test, s)
            if isinstance(st.test, ast.Constant) and not st.test.value:
                return None
            return s
        for c in ast.iter_child_nodes(st):
            if isinstance(c, ast.expr):
                self.use(c, s)
        return s

    def if_(self, st, s):
        v = const_py3_test(st.test)
        if v is True:
            return self.block(st.body, set(s))
        if v is False:
            return self.block(st.orelse, set(s))
        self.use(st.test, s)
        text = ast.unparse(st.test)
        names = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
        if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            no_else(st)      # the chain is taken to be complete
        self.tests.append((text, names))
        a = self.block(st.body, set(s))
        self.tests.pop()
        if st.orelse:
            self.tests.append((text, names))
            b = self.block(st.orelse, set(s))
            self.tests.pop()
        else:
            b = set(s)
            if self.loop or getattr(st, '_last', False):
                b = None
                if a is None:
                    return set(s)
        given = assigned_in(st.body) | assigned_in(st.orelse)
        return self.merge([a, b], {text}, names | given)

    def try_(self, st, s):
        b = self.block(st.body, set(s))
        if b is not None:
            b = self.block(st.orelse, set(b))
        outs = [b]
        for h in st.handlers:
            hs = set(s)
            if h.name:
                hs.add(h.name)
            o = self.block(h.body, hs)
            if o is not None and h.name:
                o = o - {h.name}
            outs.append(o)
        given = set()
        for h in st.handlers:
            given |= assigned_in(h.body)
        given |= assigned_in(st.orelse)
        r = self.merge(outs, (), given)
        if st.finalbody:
            f = self.block(st.finalbody, set(s))
            if f is None or r is None:
                return None
            r = r | f
        return r


def no_else(st):
    while st.orelse:
        if len(st.orelse) == 1 and isinstance(st.orelse[0], ast.If):
            st = st.orelse[0]
        else:
            return False
    st._last = True
    return True


def assigned_in(body):
    out = set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in x.names}
    return out


def has_break(body):
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While)):
            if has_break(st.orelse):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if has_break(getattr(st, f, None) or []):
                return True
        for h in getattr(st, 'handlers', ()):
            if has_break(h.body):
                return True
    return False


def never_returns(e):
    if not isinstance(e, ast.Call):
        return False
    f = e.func
    if isinstance(f, ast.Attribute):
        return f.attr == 'error' and isinstance(f.value, ast.Name) and \
            'parser' in f.value.id or f.attr == 'exit' or f.attr == '_exit'
    return isinstance(f, ast.Name) and f.id == 'exit'


D = 'hwp5/dataio.py'
R = 'hwp5/recordstream.py'
B = 'hwp5/bintype.py'
witnesses = [
    ('undefined-name', D, "logger.error('  %s', model)",
     "logger.error('  %s', modelname)"),
    ('dropped-import', 'hwp5/proc/find.py', 'import logging\n', ''),
    ('renamed-import', 'hwp5/proc/find.py',
     'from ..tagids import tagnames\n',
     'from ..tagids import tag_names as tagnames\n'),
    ('python2-name', D, 'for level, c in enumerate(reversed('
     'e.parse_stack_traces))', 'for level, c in enumerate(xrange('
     'len(e.parse_stack_traces)))'),
    ('module-attribute', 'hwp5/utils.py', 'os.unlink(', 'os.unlink_('),
    ('moved-attribute', 'hwp5/hwp5view.py',
     '    try:\n        from urllib.request import pathname2url\n'
     '    except ImportError:\n        from urllib import pathname2url\n',
     '    from urllib import pathname2url\n'),
    ('self-attribute', D, 'if self.binevents:', 'if self.bin_events:'),
    ('renamed-attribute', D, 'reversed(e.parse_stack_traces)',
     'reversed(e.stack_traces)'),
    ('python2-method', B, 'sorted(item.items())',
     'sorted(item.iteritems())'),
    ('missing-argument', R, "dumpbytes(record['payload'])",
     "dumpbytes()"),
    ('wrong-keyword', 'hwp5/proc/xml.py',
     'xmllint(format=True)', 'xmllint(formatted=True)'),
    ('log-values', D, "'Problem Offset: at %d (=0x%x)', e.offset, e.offset",
     "'Problem Offset: at %d (=0x%x)', e.offset"),
    ('format-fields', B, "print('{} {}'.format(ev, item))",
     "print('{} {} {}'.format(ev, item))"),
    ('wrong-key', D, "e.record['seqno']", "e.record['seqnum']"),
    ('unassigned', R, '    context = dict()\n\n    try:\n'
     "        context['top'] = next(records)\n"
     '    except StopIteration:\n        return\n',
     '    try:\n        context = dict()\n'
     "        context['top'] = next(records)\n"
     '    except StopIteration:\n        pass\n'),
    ('unassigned-if', 'hwp5/hwp5view.py', "    path = os.path.abspath(path)\n"
     "    return 'file://'",
     "    if os.path.exists(path):\n        url = os.path.abspath(path)\n"
     "    return url + 'file://'"),
    ('resource', 'hwp5/hwp5html.py', "'xsl/hwp5css.xsl'",
     "'xsl/hwp5.css.xsl'"),
]
benign = [
    ('helper', R, """def record_to_json(record, *args, **kwargs):
    ''' convert a record to json '''
    record['payload'] = list(dumpbytes(record['payload']))
    return json.dumps(record, *args, **kwargs)
""", """def payload_lines(record, part='payload', *rest):
    return list(dumpbytes(record[part]))


def record_to_json(record, *args, **kwargs):
    ''' convert a record to json '''
    lines = payload_lines(record)
    record['payload'] = lines
    text = json.dumps(record, *args, **kwargs)
    return text
"""),
    ('imported-module', R, [
        ('from itertools import islice', 'import itertools'),
        ('islice(iterable', 'itertools.islice(iterable'),
        ('islice(records', 'itertools.islice(records')]),
    ('correlated', R, """    try:
        return next(islice(iterable, n, None))
    except StopIteration:
        return default
""", """    found = True
    try:
        item = next(islice(iterable, n, None))
    except StopIteration:
        found = False
    if found:
        return item
    return default
"""),
    ('new-class', R, 'def nth(iterable,', """class Taker(object):

    def __init__(self, items, start=0):
        self.items = items
        self.at = start

    def take(self, count=1):
        for i in range(count):
            value = next(self.items)
            self.at += 1
        return value


def first(iterable):
    taker = Taker(iterable)
    return taker.take(), taker.at


def nth(iterable,"""),
]
