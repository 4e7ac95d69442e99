# -*- coding: utf-8 -*-
"""Wire model of the binary format, derived from the class definitions."""
from .layout import Layout, clean
from .prog import ClassInfo, AnalysisError
from .terms import T, is_const, cval, show


class Model:
    def __init__(self, prog, layout):
        self.prog = prog
        self.layout = layout
        self.record_base = prog.cls('hwp5.binmodel._shared', 'RecordModel')
        if self.record_base is None:
            raise AnalysisError('anchor not found: RecordModel')
        self._own = {}
        self.classes = [c for c in layout.struct_classes()]

    def own(self, ci):
        if ci not in self._own:
            self._own[ci] = self.layout.own_members(ci)
        return self._own[ci]

    def is_record(self, ci):
        return self.record_base in self.prog.mro(ci)

    def nearest(self, ci):
        for c in self.prog.mro(ci):
            if isinstance(c, ClassInfo) and 'attributes' in c.members:
                return c
        return None

    def chain(self, ci):
        """classes whose members make up ci on the wire, in reading order"""
        if self.is_record(ci):
            cs = [c for c in self.prog.mro(ci) if isinstance(c, ClassInfo)
                  and 'attributes' in c.members]
            return list(reversed(cs))
        n = self.nearest(ci)
        return [n] if n is not None else []

    def wire(self, ci):
        out = []
        for c in self.chain(ci):
            out.extend(clean(m) for m in self.own(c) or [])
        return out

    def tagid(self, ci, own=True):
        t = self.layout.class_const(ci, 'tagid')
        if t is None:
            return None
        return self.const_of(t)

    def const_of(self, t):
        while t.op in ('gval', 'cval'):
            t = t.args[2]
        return cval(t, show(t))

    def prim(self, ci):
        """wire facts of a primitive class type"""
        out = {}
        for k in ('binfmt', 'fixed_size'):
            for c in self.prog.mro(ci):
                if isinstance(c, ClassInfo) and k in c.members:
                    t = self.layout.class_const(c, k)
                    if t is not None:
                        out[k] = self.value(t)
                    break
        if not out:
            b = self.layout.prim_base(ci) if hasattr(
                self.layout, 'prim_base') else None
            if b is not None:
                out['base'] = self.layout.type_of(self.layout.walker(), b) \
                    if not isinstance(b, (str, dict)) else b
        return out

    def value(self, t):
        while t.op in ('gval', 'cval'):
            t = t.args[2]
        if is_const(t):
            return t.args[0]
        if t.op == 'attr' and t.args[1] == 'binfmt':
            ty = self.layout.type_of(self.layout.walker(), t.args[0])
            if isinstance(ty, dict):
                return ty.get('binfmt')
        return show(t)


def wire_type(t):
    """type with bit fields and enumerations reduced to their carriers"""
    if isinstance(t, dict):
        if 'flags' in t:
            return wire_type(t['flags'])
        if 'primitive' in t:
            return {'prim': t['binfmt']}
        out = {}
        for k, v in t.items():
            if k == 'members':
                out[k] = [dict(wire_member(m)) for m in v]
            elif k == 'cases' and isinstance(v, dict):
                out[k] = {a: wire_type(b) for a, b in v.items()}
            elif k in ('array', 'narray', 'xarray', 'count'):
                out[k] = wire_type(v)
            else:
                out[k] = v
        return out
    return t


def wire_member(m):
    r = {'name': m['name'], 'type': wire_type(m['type'])}
    for k in m:
        if k not in ('name', 'type'):
            r[k] = m[k]
    return r


def flags_in(t):
    """flag types inside a member type"""
    if isinstance(t, dict):
        if 'flags' in t:
            yield t
        for k, v in t.items():
            if k == 'members':
                for m in v:
                    for x in flags_in(m['type']):
                        yield x
            elif k == 'cases' and isinstance(v, dict):
                for b in v.values():
                    for x in flags_in(b):
                        yield x
            elif k in ('array', 'narray', 'xarray', 'count'):
                for x in flags_in(v):
                    yield x


def enums_in(t):
    if isinstance(t, dict):
        if 'enum' in t and 'flags' not in t:
            yield t
        for k, v in t.items():
            if k in ('array', 'narray', 'xarray', 'flags'):
                for x in enums_in(v):
                    yield x
