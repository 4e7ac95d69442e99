# -*- coding: utf-8 -*-
"""M01 summary information is read by the property-set format."""
import ast
from ..terms import T, Term, is_const, cval, subterms, alternatives
from ..flow import reachable
from ..prog import ClassInfo
from ..bits import bits_of
from ._util import short, fn_args

TECHNIQUE = ('table extraction by constant propagation (property ids, labels, '
             'type codes, format identifiers) compared with [MS-OLEPS] and '
             'the HWP format; value-flow analysis of the property-set reader '
             'with all its helpers inlined (seek before read, each property '
             'with its own description and label, none left out)')
LEVEL_NOTE = ('The member layout of the property-set structures is decided '
              'by R04. Property sets whose values have types the package '
              'does not know are not considered.')
EXPLANATION = '''Identifiers and labels are evaluated from the calls that
define them, type codes from the decorators that register the types. The reader
is expanded with everything it calls; in the result, every read of a property
must be preceded, on every path and with no other use of the stream between, by
a seek to the offset of the property set plus the offset of that property, and
the property must be stored with the description, the label and the value of the
same identifier. Each described property is read and stored once. The named
attributes of the summary information and the lines of its text form use the
identifier that belongs to them.'''

IDS = {'PID_DICTIONARY': 0, 'PID_CODEPAGE': 1, 'PID_LOCALE': 0x80000000,
       'PID_BEHAVIOR': 0x80000003, 'PIDSI_TITLE': 2, 'PIDSI_SUBJECT': 3,
       'PIDSI_AUTHOR': 4, 'PIDSI_KEYWORDS': 5, 'PIDSI_COMMENTS': 6,
       'PIDSI_TEMPLATE': 7, 'PIDSI_LASTAUTHOR': 8, 'PIDSI_REVNUMBER': 9,
       'PIDSI_EDITTIME': 10, 'PIDSI_LASTPRINTED': 11,
       'PIDSI_CREATE_DTM': 12, 'PIDSI_LASTSAVE_DTM': 13,
       'PIDSI_PAGECOUNT': 14, 'PIDSI_WORDCOUNT': 15, 'PIDSI_CHARCOUNT': 16,
       'PIDSI_THUMBNAIL': 17, 'PIDSI_APPNAME': 18, 'PIDSI_SECURITY': 19,
       'HWPPIDSI_DATE_STR': 20, 'HWPPIDSI_PARACOUNT': 21}
# [MS-OLEPS] 2.2 PropertyType
VT = {'VT_EMPTY': 0, 'VT_NULL': 1, 'VT_I2': 2, 'VT_I4': 3, 'VT_R4': 4,
      'VT_R8': 5, 'VT_CY': 6, 'VT_DATE': 7, 'VT_BSTR': 8, 'VT_ERROR': 10,
      'VT_BOOL': 11, 'VT_DECIMAL': 14, 'VT_I1': 16, 'VT_UI1': 17,
      'VT_UI2': 18, 'VT_UI4': 19, 'VT_I8': 20, 'VT_UI8': 21, 'VT_INT': 22,
      'VT_UINT': 23, 'VT_LPSTR': 30, 'VT_LPWSTR': 31, 'VT_FILETIME': 64,
      'VT_BLOB': 65, 'VT_CF': 71, 'VT_CLSID': 72}
INTS = {'VT_I2': 'INT16', 'VT_I4': 'INT32', 'VT_UI1': 'UINT8',
        'VT_UI2': 'UINT16', 'VT_UI4': 'UINT32', 'VT_INT': 'INT32',
        'VT_UINT': 'UINT32'}
UUIDS = {'CLSID_HWP_SUMMARY_INFORMATION':
         '9fa2b660106111d4b4c6006097c09d8c',
         'FMTID_HWP_SUMMARY_INFORMATION':
         '9fa2b660106111d4b4c6006097c09d8c',
         'FMTID_SummaryInformation': 'f29f85e04ff91068ab9108002b27b3d9',
         'FMTID_DocSummaryInformation': 'd5cdd5022e9c101b939708002b2cf9ae',
         'FMTID_UserDefinedProperties': 'd5cdd5052e9c101b939708002b2cf9ae'}
ATTRS = {'title': 'PIDSI_TITLE', 'subject': 'PIDSI_SUBJECT',
         'author': 'PIDSI_AUTHOR', 'keywords': 'PIDSI_KEYWORDS',
         'comments': 'PIDSI_COMMENTS', 'lastSavedBy': 'PIDSI_LASTAUTHOR',
         'revisionNumber': 'PIDSI_REVNUMBER',
         'lastPrintedTime': 'PIDSI_LASTPRINTED',
         'createdTime': 'PIDSI_CREATE_DTM',
         'lastSavedTime': 'PIDSI_LASTSAVE_DTM',
         'numberOfPages': 'PIDSI_PAGECOUNT',
         'dateString': 'HWPPIDSI_DATE_STR',
         'numberOfParagraphs': 'HWPPIDSI_PARACOUNT'}
LINES = {'Title': 'title', 'Subject': 'subject', 'Author': 'author',
         'Keywords': 'keywords', 'Comments': 'comments',
         'Last saved by': 'lastSavedBy',
         'Revision Number': 'revisionNumber',
         'Last Printed at': 'lastPrintedTime', 'Created at': 'createdTime',
         'Last saved at': 'lastSavedTime',
         'Number of pages': 'numberOfPages', 'Date': 'dateString',
         'Number of paragraphs': 'numberOfParagraphs'}


def run(ctx):
    known = id_rule(ctx)
    table_rule(ctx, known)
    uuid_rule(ctx)
    type_rule(ctx)
    reader_rule(ctx)
    attr_rule(ctx)


# -------------------------------------------------------------------- tables

def number(prog, m, e):
    try:
        return ast.literal_eval(e)
    except Exception:
        pass
    if isinstance(e, ast.Name):
        for x in prog.resolve_expr(m, e, None) or ():
            if x[0] == 'expr':
                return number(prog, x[1], x[2])
    if isinstance(e, ast.BinOp):
        a, b = number(prog, m, e.left), number(prog, m, e.right)
        if a is not None and b is not None:
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
                        ast.LShift: lambda: a << b,
                        ast.BitOr: lambda: a | b,
                        ast.Mult: lambda: a * b}[type(e.op)]()
            except Exception:
                return None
    return None


def assigns(prog):
    for m in prog.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        yield m, t.id, s.value


def call_args(c, names):
    out = dict(zip(names, c.args))
    out.update({k.arg: k.value for k in c.keywords})
    return out


def is_identifier(prog, m, v):
    if not isinstance(v, ast.Call):
        return False
    if isinstance(v.func, ast.Name) and v.func.id == 'PropertyIdentifier':
        return True
    return any(x[0] in ('class',) and x[1].name == 'PropertyIdentifier'
               for x in prog.resolve_expr(m, v.func, None) or ())


def id_rule(ctx):
    R = 'M01.ids'
    ctx.rule(R, 'each property identifier has the number and the label of '
             'the format', 12)
    prog = ctx.prog
    known = {}
    for m, name, v in assigns(prog):
        if not is_identifier(prog, m, v):
            continue
        a = call_args(v, ['id', 'label'])
        if 'id' not in a:
            continue
        i = number(prog, m, a['id'])
        lab = number(prog, m, a['label']) if 'label' in a else None
        known[name] = (i, lab)
        where = '%s:%d' % (m.name, v.lineno)
        want = IDS.get(name)
        if want is None:
            ctx.check(i not in IDS.values() or i is None, R, name,
                      'the number %r belongs to another property' % i,
                      where)
            continue
        ctx.check(i is None or i == want, R, name,
                  'has the number %r, the format says %d' % (i, want), where)
        ctx.check(lab is None or lab == name, R, name + ' label',
                  'is labelled %s' % lab, where)
    if known:
        for nm in IDS:
            if nm not in known:
                ctx.bad(R, nm, 'is not defined', 'msoleprops')
    return known


def elements(prog, m, e, depth=0):
    """names a tuple is made of, or None"""
    if depth > 6:
        return None
    if isinstance(e, (ast.Tuple, ast.List)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                r = elements(prog, m, x.value, depth + 1)
                if r is None:
                    return None
                out.extend(r)
            elif isinstance(x, ast.Name):
                out.append(x.id)
            else:
                return None
        return out
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a = elements(prog, m, e.left, depth + 1)
        b = elements(prog, m, e.right, depth + 1)
        return None if a is None or b is None else a + b
    if isinstance(e, ast.Name):
        for x in prog.resolve_expr(m, e, None) or ():
            if x[0] == 'expr':
                return elements(prog, x[1], x[2], depth + 1)
    return None


def table_rule(ctx, known):
    R = 'M01.tables'
    ctx.rule(R, 'the format table of the summary information has every '
             'property once', 1)
    for m, name, v in assigns(ctx.prog):
        if name not in ('HWP_PROPERTIES', 'SUMMARY_INFORMATION_PROPERTIES',
                        'RESERVED_PROPERTIES'):
            continue
        es = elements(ctx.prog, m, v)
        if es is None:
            continue
        want = [k for k in IDS if
                name == 'HWP_PROPERTIES' or
                k.startswith('PIDSI_') and name.startswith('SUMM') or
                k.startswith('PID_') and name.startswith('RES')]
        where = '%s:%d' % (m.name, v.lineno)
        for k in want:
            ctx.check(k in es, R, '%s %s' % (name, k), 'is left out', where)
        ids = [known[k][0] for k in es if k in known]
        ctx.check(len(ids) == len(set(ids)), R, name,
                  'two entries have the same number', where)


def uuid_rule(ctx):
    R = 'M01.uuid'
    ctx.rule(R, 'class and format identifiers have the values of the format',
             1)
    prog = ctx.prog
    for m, name, v in assigns(prog):
        if name not in UUIDS:
            continue
        w = v
        mm = m
        if isinstance(w, ast.Name):
            for x in prog.resolve_expr(m, w, None) or ():
                if x[0] == 'expr':
                    mm, w = x[1], x[2]
        if not isinstance(w, ast.Call):
            continue
        a = call_args(w, ['hex'])
        s = number(prog, mm, a['hex']) if 'hex' in a else None
        if not isinstance(s, str):
            continue
        s = s.strip('{}').replace('-', '').lower().replace('urn:uuid:', '')
        ctx.check(s == UUIDS[name], R, name, 'is %s, the format says %s' % (
            s, UUIDS[name]), '%s:%d' % (m.name, v.lineno))
    # the byte order in which identifiers are stored
    for f in prog.functions:
        if 'msoleprops' not in f.module.name:
            continue
        g = ctx.graphs.get(f)
        for n in g.nodes if g else ():
            if n.kind in ('call', 'new') and n.get('fn') is not None and \
                    n.fn.op == 'ext' and n.fn.args[0] == 'uuid.UUID':
                kw = dict(n.get('kw') or ())
                ctx.check('bytes' not in kw and not (
                    n.get('args') and len(n.args) == 3), R,
                    '%s bytes' % f.fullname, 'identifiers are stored with '
                    'little-endian parts', ctx.where(n))


# --------------------------------------------------------------------- types

def is_read(t, name=None):
    """t is read_type(<name>, …)"""
    fn, args = fn_args(t)
    if fn is None or fn.op != 'func' or fn.args[0].name != 'read_type' or \
            not args:
        return False
    return name is None or named(args[0]) == name


def named(t):
    if t.op in ('gval', 'cval') and len(t.args) > 1:
        return t.args[1]
    if t.op == 'class':
        return t.args[0].name if hasattr(t.args[0], 'name') else None
    return None


def codes(ctx):
    """{class: (code, where)} from PropertyType(code=...) decorators or
    entries of vt_types"""
    prog = ctx.prog
    out = []
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.ClassDef):
                continue
            for d in x.decorator_list:
                if isinstance(d, ast.Call) and isinstance(
                        d.func, (ast.Name, ast.Attribute)):
                    nm = d.func.id if isinstance(d.func, ast.Name) else \
                        d.func.attr
                    if nm != 'PropertyType':
                        continue
                    a = call_args(d, ['code'])
                    if 'code' in a:
                        out.append((prog.class_by_node.get(x), x.name,
                                    number(prog, m, a['code']),
                                    '%s:%d' % (m.name, x.lineno)))
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and isinstance(
                    s.value, ast.Dict) and any(
                        isinstance(t, ast.Name) and t.id == 'vt_types'
                        for t in s.targets):
                for k, v in zip(s.value.keys, s.value.values):
                    for e in prog.resolve_expr(m, v, None) or ():
                        if e[0] == 'class':
                            out.append((e[1], e[1].name,
                                        number(prog, m, k),
                                        '%s:%d' % (m.name, k.lineno)))
    return out


def type_rule(ctx):
    R = 'M01.types'
    ctx.rule(R, 'each value type has the code of the format and reads its '
             'value as the format stores it', 3)
    seen = {}
    for ci, name, code, where in codes(ctx):
        if name in VT:
            ctx.check(code is None or code == VT[name], R, name,
                      'has the code %r, the format says %#x' % (
                          code, VT[name]), where)
        ctx.check(code not in seen, R, name + ' code',
                  '%s has the same code' % seen.get(code), where)
        seen[code] = name
        if ci is None:
            continue
        f = ctx.prog.method(ci, 'read_value')
        g = ctx.graphs.get(f) if f is not None else None
        if g is None:
            continue
        live = reachable(g, [0])
        rs = [n for n in g.nodes if n.kind == 'return' and n.id in live and
              isinstance(n.get('value'), Term)]
        for n in rs:
            value(ctx, R, name, g, n)
    for name in ('VT_I4', 'VT_LPWSTR', 'VT_FILETIME'):
        if seen:
            ctx.check(name in seen.values(), R, name, 'is not registered',
                      'msoleprops')
    filetime(ctx, R)
    type_code(ctx, R)


def type_code(ctx, R):
    """the types of values are looked up by the low 16 bits of the word which
    stores them"""
    g = ctx.query('from hwp5.msoleprops import PropertyReader as P\n'
                  'def q(a, b, i, cp, f):\n'
                  '    return P(a, b, i, cp).read(f)\n')
    for n in g.nodes:
        if n.kind != 'getitem' or n.obj.op != 'gval' or \
                'types' not in str(n.obj.args[1]):
            continue
        k = n.key
        if k.op != 'attr' or k.args[0].op != 'sub' or \
                not is_const(k.args[0].args[1]):
            continue
        member = cval(k.args[0].args[1])
        for cls in {x.args[0] for x in subterms(k) if x.op == 'class' and
                    isinstance(x.args[0], ClassInfo)}:
            for m in ctx.layout.own_members(cls):
                t = m.get('type') if isinstance(m, dict) else None
                if not isinstance(t, dict) or m.get('name') != member or \
                        'flags' not in t:
                    continue
                for f in t.get('fields') or ():
                    if f[0] == k.args[1]:
                        ctx.check(f[1] == 0 and f[2] in (15, 31), R,
                                  'type code', 'is taken from the bits %s to '
                                  '%s' % (f[1], f[2]), ctx.where(n))


def value(ctx, R, name, g, n):
    v = n.value
    where = ctx.where(n)
    reads = [x for x in g.nodes if x.kind == 'call' and
             x.fn.op == 'func' and x.fn.args[0].name == 'read_type']
    if name in INTS:
        bad = is_read(v) and named(fn_args(v)[1][0]) not in (
            INTS[name], None)
        ctx.check(not bad, R, name + ' value', 'is read as %s' % short(v, 60),
                  where)
    if name == 'VT_LPWSTR':
        lens = [x for x in reads]
        ctx.check(all(named(x.args[0]) in ('UINT32', None) for x in lens), R,
                  name + ' length', 'is no 32-bit number', where)
        for x in g.nodes:
            if x.kind != 'call' or x.fn.op != 'attr':
                continue
            if x.fn.args[1] == 'read' and x.args:
                k = factor(x.args[0])
                ctx.check(k is None or k == 2, R, name + ' size',
                          'reads %s bytes per character, not 2' % k,
                          ctx.where(x))
            if x.fn.args[1] == 'decode' and x.args and is_const(x.args[0]):
                enc = str(cval(x.args[0])).lower().replace('-', '').replace(
                    '_', '')
                ctx.check(enc in ('utf16le', 'utf16'), R,
                          name + ' encoding', 'is decoded as %s' % enc,
                          ctx.where(x))
                ctx.check(enc != 'utf16', R, name + ' byte order',
                          'is taken from the text', ctx.where(x))
        # the terminating null, and nothing else, is left out
        if v.op in ('sub', 'slice') or v.op == 'item':
            s = v.args[1] if len(v.args) > 1 else None
            if isinstance(s, Term) and s.op == 'slice':
                lo, hi = s.args[0], s.args[1]
                lo = cval(lo) if isinstance(lo, Term) and is_const(lo) \
                    else lo
                hi = cval(hi) if isinstance(hi, Term) and is_const(hi) \
                    else hi
                ctx.check(not (isinstance(lo, int) and lo != 0) and
                          (not isinstance(hi, int) or hi == -1), R,
                          name + ' end', 'keeps [%s:%s]' % (lo, hi), where)
        else:
            fn, a = fn_args(v)
            if fn is not None and fn.op == 'attr' and \
                    fn.args[1] == 'decode':
                ctx.bad(R, name + ' end', 'keeps the terminating null',
                        where)
    if name == 'VT_FILETIME':
        news = [x for x in g.nodes if x.kind == 'new' and (
            x.get('args') or x.get('kw'))]
        for x in news:
            a = (list(x.get('args') or ()) +
                 [y for _k, y in x.get('kw') or ()])[0]
            words = [r for r in reads if named(r.args[0]) == 'UINT32']
            if len(words) != 2 or len(reads) != 2:
                continue
            terms = []
            for r in words:
                hit = [y for y in subterms(a) if is_read(y) and
                       y.op == 'res' and y.args[0] == r.d.get(
                           'result', T('none')).args[0]] \
                    if isinstance(r.get('result'), Term) else []
                terms.append(hit[0] if hit else None)
            if None in terms:
                srcs = sorted({y for y in subterms(a) if is_read(y) and
                               y.op == 'res'}, key=lambda y: y.args[0])
                if len(srcs) != 2:
                    continue
                terms = srcs
            b = bits_of(a, lambda t: 32 if t in terms else None)
            if b is None:
                continue
            ok = len(b.b) >= 64 and all(
                b.b[i] == (terms[0], i) for i in range(32)) and all(
                    b.b[32 + i] == (terms[1], i) for i in range(32))
            unknown = any(z == '?' for z in b.b[:64])
            ctx.check(ok or unknown, R, name + ' words',
                      'the first word is not the low half of %s' %
                      short(a, 80), ctx.where(x))


def factor(t):
    """k if t is k * (a number read before)"""
    if is_read(t):
        return 1
    if t.op == 'bin':
        o, a, b = t.args[0], t.args[1], t.args[2]
        if o == '*':
            for x, y in ((a, b), (b, a)):
                if is_const(x) and is_read(y):
                    return cval(x)
        if o == '<<' and is_read(a) and is_const(b):
            return 1 << cval(b)
        if o == '+' and is_read(a) and a == b:
            return 2
        if o in ('+', '-'):
            ka, kb = factor(a), factor(b)
            if ka is not None and is_const(b):
                return '%s %s %s' % (ka, o, cval(b))
    return None


def filetime(ctx, R):
    """100 ns since 1601-01-01"""
    for f, g in ctx.graphs.items():
        if f.cls is None or f.cls.name != 'FILETIME':
            continue
        for n in g.nodes:
            v = n.get('value')
            if n.kind != 'return' or not isinstance(v, Term):
                continue
            for x in subterms(v):
                fn, args = fn_args(x)
                if fn is None or fn.op != 'ext':
                    continue
                if fn.args[0] == 'datetime.datetime' and len(args) >= 3 and \
                        all(is_const(y) for y in args):
                    vals = [cval(y) for y in args]
                    ctx.check(vals[:3] == [1601, 1, 1] and
                              not any(vals[3:]), R, 'FILETIME epoch',
                              'is %s' % vals, ctx.where(n))
                if fn.args[0] == 'datetime.timedelta':
                    kw = dict(getattr_kw(x))
                    for unit, per in (('microseconds', 10),
                                      ('milliseconds', 10000),
                                      ('seconds', 10000000)):
                        if unit in kw:
                            span(ctx, R, kw[unit], unit, per, n)


def span(ctx, R, t, unit, per, n):
    exact = True
    fn, args = fn_args(t)
    if fn is not None and fn.op == 'ext' and fn.args[0] == 'builtins.int' \
            and args:
        t = args[0]
    if t.op == 'bin' and t.args[0] in ('/', '//') and is_const(t.args[2]):
        exact = t.args[0] == '//'
        ctx.check(cval(t.args[2]) == per, R, 'FILETIME unit',
                  'a %s is %s units of 100 ns' % (unit[:-1],
                                                  cval(t.args[2])),
                  ctx.where(n))
        ctx.check(exact, R, 'FILETIME exact', 'the division is done in '
                  'floating point, which is not exact for such numbers',
                  ctx.where(n))


def getattr_kw(t):
    """keyword arguments of a call term"""
    out = []
    for a in t.args:
        if isinstance(a, tuple):
            for kv in a:
                if isinstance(kv, tuple) and len(kv) == 2 and \
                        isinstance(kv[0], str):
                    out.append(kv)
    return out


# -------------------------------------------------------------------- reader

def touches(n, f):
    """the node uses the stream"""
    if n.kind != 'call':
        return False
    if n.fn.op == 'attr' and n.fn.args[0] == f:
        return True
    return any(a == f for a in n.get('args') or ()) or any(
        v == f for _k, v in n.get('kw') or ())


def before(g, nid, f):
    """the last uses of the stream before a node"""
    preds = {}
    for n in g.nodes:
        for y, l in n.succ:
            preds.setdefault(y, []).append((n.id, l))
    out, seen, st = [], set(), [nid]
    while st:
        x = st.pop()
        for p, l in preds.get(x, ()):
            if p in seen or l in ('exc', 'genexit'):
                continue
            seen.add(p)
            if touches(g.nodes[p], f):
                out.append(g.nodes[p])
            else:
                st.append(p)
    return out


def offsets(t):
    """bases of the .offset attributes a sum is made of, or None"""
    if t.op == 'attr' and t.args[1] == 'offset':
        return [t.args[0]]
    if t.op in ('sub', 'item') and len(t.args) > 1 and isinstance(
            t.args[1], Term) and is_const(t.args[1]) and \
            cval(t.args[1]) == 'offset':
        return [t.args[0]]
    if t.op == 'bin' and t.args[0] == '+':
        a, b = offsets(t.args[1]), offsets(t.args[2])
        return None if a is None or b is None else a + b
    return None


def record_of(t):
    """what a description is a description of"""
    names = {c.args[0].name for c in subterms(t) if c.op == 'inst' and
             hasattr(c.args[0], 'name')}
    if 'PropertyDesc' in names:
        return 'property'
    if 'PropertySetDesc' in names:
        return 'set'
    return None


def reader_rule(ctx):
    R = 'M01.located'
    ctx.rule(R, 'each property set and each property is read where its '
             'description says', 3)
    R2 = 'M01.assigned'
    ctx.rule(R2, 'each property is stored with its own description, label '
             'and value', 2)
    R3 = 'M01.complete'
    ctx.rule(R3, 'every described property is read and stored', 1)
    f = ctx.prog.find_func('hwp5.msoleprops', 'PropertySetStreamReader.read')
    if f is None:
        return
    try:
        g = ctx.graph(f, inline=lambda h, _w=None:
                      h.module.name == 'hwp5.msoleprops' and
                      h.name != '__init__' or
                      h.module.name == 'hwp5.msoleprops')
    except Exception:
        return
    live = reachable(g, [0])
    fs = T('sym', f.params[1]) if len(f.params) > 1 else None
    stream = None
    for n in g.nodes:
        if n.kind == 'call' and n.fn.op == 'func' and \
                n.fn.args[0].name == 'read_type' and len(n.args) > 2:
            stream = n.args[2]
            break
    if stream is None:
        return
    for n in g.nodes:
        if n.id not in live or n.kind != 'call' or n.fn.op != 'func' or \
                n.fn.args[0].name != 'read_type' or not n.args:
            continue
        what = named(n.args[0])
        if what not in ('PropertySetHeader', 'TypedPropertyValue',
                        'Dictionary'):
            continue
        for p in before(g, n.id, stream):
            if p.fn.op != 'attr' or p.fn.args[1] != 'seek':
                ctx.bad(R, what, 'is read after %s, without a seek' %
                        short(p.fn, 60), ctx.where(n))
                continue
            bs = offsets(p.args[0]) if p.args else None
            whence = [a for a in p.args[1:2]]
            if whence and is_const(whence[0]) and cval(whence[0]) != 0:
                ctx.bad(R, what, 'the offset is not counted from the start',
                        ctx.where(p))
                continue
            if bs is None:
                continue
            kinds = sorted(str(record_of(b)) for b in bs)
            if 'None' in kinds:
                continue
            want = ['set'] if what == 'PropertySetHeader' else \
                ['property', 'set']
            ctx.check(kinds == want, R, what, 'is read at the offset%s of '
                      'the %s' % ('s' if len(kinds) > 1 else '',
                                  ' and the '.join(kinds)), ctx.where(p))
    # properties
    for n in g.nodes:
        if n.id not in live or n.kind != 'new' or n.cls.name != 'Property':
            continue
        init = ctx.prog.method(n.cls, '__init__')
        kw = dict(zip(init.params[1:], n.get('args') or ())) if init else {}
        kw.update(dict(n.get('kw') or ()))
        d = kw.get('desc')
        if d is None:
            continue
        lab = kw.get('idLabel')
        if lab is not None:
            keys = set()
            for x in subterms(lab):
                fn, a = fn_args(x)
                if fn is not None and fn.op == 'attr' and fn.args[1] == \
                        'get' and a:
                    keys.add(a[0])
                elif x.op == 'sub' and len(x.args) > 1:
                    keys.add(x.args[1])
            ids = [k for k in keys if isinstance(k, Term) and
                   k.op == 'attr' and k.args[1] in ('id', 'offset') and
                   record_of(k.args[0]) == 'property']
            other = [k for k in ids if k != T('attr', d, 'id') and
                     k not in set(subterms(d))]
            ctx.check(not other and not is_const(lab), R2, 'label',
                      'the label is looked up by %s' % short(
                          other[0] if other else lab, 60), ctx.where(n))
        v = kw.get('value')
        # the value was read after the seek to this description
        seeks = [x for x in g.nodes if x.kind == 'call' and
                 x.fn.op == 'attr' and x.fn.args[1] == 'seek' and
                 x.args and offsets(x.args[0]) and any(
                     record_of(b) == 'property'
                     for b in offsets(x.args[0]))]
        near = last_of(g, n.id, {x.id for x in seeks})
        for s in near:
            bs = [b for b in offsets(g.nodes[s].args[0])
                  if record_of(b) == 'property']
            ctx.check(d in bs, R2, 'description', 'what is read at %s is '
                      'stored as %s' % (short(bs[0], 50), short(d, 50)),
                      ctx.where(n))
        if isinstance(v, Term):
            typed = [x for x in subterms(v) if is_read(x)]
            ctx.check(bool(typed) or not is_const(v), R2, 'value',
                      'is %s' % short(v, 60), ctx.where(n))
    stored(ctx, R3, g, live)
    # labels by id
    for f2 in ctx.prog.functions:
        if f2.name != 'idLabels' or f2.cls is None:
            continue
        g2 = ctx.graphs.get(f2)
        for n in g2.nodes if g2 else ():
            v = n.get('value')
            if n.kind == 'return' and isinstance(v, Term) and \
                    v.op == 'comp' and v.args[0] == 'dict':
                kv = v.args[1]
                kv = kv[0] if isinstance(kv, tuple) and len(kv) == 1 else kv
                if isinstance(kv, Term) and kv.op == 'tuple':
                    kv = [y for z in kv.args for y in (
                        z if isinstance(z, tuple) else (z,))]
                if len(kv) == 2 and all(isinstance(x, Term) and
                                        x.op == 'attr' for x in kv):
                    ctx.check(kv[0].args[1] == 'id' and
                              kv[1].args[1] == 'label' and
                              kv[0].args[0] == kv[1].args[0], R2,
                              'labels by id', 'is %s' % short(v, 80),
                              ctx.where(n))
    item_rule(ctx, R2)


def last_of(g, nid, marks):
    preds = {}
    for n in g.nodes:
        for y, l in n.succ:
            preds.setdefault(y, []).append((n.id, l))
    out, seen, st = set(), set(), [nid]
    while st:
        x = st.pop()
        for p, l in preds.get(x, ()):
            if p in seen or l in ('exc', 'genexit'):
                continue
            seen.add(p)
            if p in marks:
                out.add(p)
            else:
                st.append(p)
    return out


def stored(ctx, R, g, live):
    """a value that was made a Property is appended before the function goes
    on to the next one"""
    news = {}
    for n in g.nodes:
        if n.id in live and n.kind == 'new' and n.cls.name == 'Property' and \
                isinstance(n.get('result'), Term):
            news[n.id] = n
    if not news:
        return
    for i, n in news.items():
        apps = {x.id for x in g.nodes if x.kind == 'call' and
                x.fn.op == 'attr' and x.fn.args[1] in (
                    'append', 'add', 'extend', 'insert') and any(
                        n.result in set(subterms(a)) for a in x.args)}
        apps |= {x.id for x in g.nodes if x.kind in (
            'setitem', 'yield') and isinstance(x.get('value'), Term) and
            n.result in set(subterms(x.value))}
        if not apps:
            ctx.bad(R, 'property made at %s' % n.loc.split(':')[-1],
                    'is not stored', ctx.where(n))
            continue
        others = {x.id for x in g.nodes if x.id in live and
                  (x.kind == 'new' and x.cls.name in (
                      'PropertySet', 'Property'))}
        seen, st, bad = set(), [y for y, l in n.succ
                                if l not in ('exc', 'genexit')], None
        while st:
            x = st.pop()
            if x in seen or x in apps:
                continue
            seen.add(x)
            if x in others:
                bad = x
                break
            st.extend(y for y, l in g.nodes[x].succ
                      if l not in ('exc', 'genexit'))
        ctx.check(bad is None, R, 'property', 'is not stored on a path',
                  ctx.where(n))
    # the loop over the descriptions reads one property per iteration
    news_ids = set(news)
    for n in g.nodes:
        if n.kind != 'next' or n.id not in live:
            continue
        it = n.get('iter')
        if not isinstance(it, Term) or record_of(it) != 'property' or \
                it.op == 'comp':
            continue
        body = [y for y, l in n.succ if l == 'T']
        inside = set()
        st = list(body)
        while st:
            x = st.pop()
            if x in inside or x == n.id:
                continue
            inside.add(x)
            st.extend(y for y, l in g.nodes[x].succ
                      if l not in ('exc', 'genexit'))
        descs = [v for i in inside & news_ids
                 for v in list(news[i].get('args') or ()) +
                 [y for _k, y in news[i].get('kw') or ()]]
        if not any(isinstance(v, Term) and (
                v.op == 'elem' and v.args[0] == it or v.op == 'item' and
                v.args[0].op == 'elem' and v.args[0].args[0] == it)
                for v in descs):
            continue
        seen, st, skip = set(), list(body), False
        while st:
            x = st.pop()
            if x in seen or x in news_ids:
                continue
            seen.add(x)
            for y, l in g.nodes[x].succ:
                if l in ('exc', 'genexit'):
                    continue
                if y == n.id or l == 'back':
                    skip = True
                st.append(y)
        ctx.check(not skip, R, 'loop over the descriptions',
                  'skips a property', ctx.where(n))
    # what is taken out of the map comes back as a property
    for n in g.nodes:
        if n.kind != 'call' or n.id not in live or n.fn.op != 'attr' or \
                n.fn.args[1] != 'pop' or not isinstance(
                    n.get('result'), Term) or \
                record_of(n.fn.args[0]) != 'property':
            continue
        used = any(n.result in set(subterms(v)) for x in news.values()
                   for v in list(x.get('args') or ()) +
                   [y for _k, y in x.get('kw') or ()])
        ctx.check(used, R, 'taken out of the descriptions',
                  'is not made a property', ctx.where(n))


def item_rule(ctx, R):
    """PropertySet[identifier] is the value of the property with its id"""
    f = ctx.prog.find_func('hwp5.msoleprops', 'PropertySet.__getitem__')
    g = ctx.graphs.get(f) if f is not None else None
    if g is None:
        return
    for n in g.nodes:
        v = n.get('value')
        if n.kind == 'return' and isinstance(v, Term) and v.op == 'attr' \
                and v.args[0].op == 'elem':
            ctx.check(v.args[1] == 'value', R, 'lookup result',
                      'is the %s' % v.args[1], ctx.where(n))
        if n.kind == 'branch' and n.cond.op == 'cmp':
            sides = [x for x in n.cond.args if isinstance(x, Term) and
                     x.op == 'attr']
            if len(sides) == 2:
                ctx.check({x.args[1] for x in sides} == {'id'} and
                          n.cond.args[0] in ('==', '!='), R, 'lookup key',
                          'compares %s' % short(n.cond, 60), ctx.where(n))


# ---------------------------------------------------------------- attributes

def idents(t):
    return {x.args[1] for x in subterms(t) if x.op in ('gval', 'cval') and
            len(x.args) > 1 and x.args[1] in IDS}


def attr_rule(ctx):
    R = 'M01.attributes'
    ctx.rule(R, 'the named attributes of the summary information and the '
             'lines of its text form show the property they name', 6)
    prog = ctx.prog
    for f in prog.functions:
        if f.cls is None or f.name not in ATTRS or \
                'ummary' not in f.cls.name:
            continue
        try:
            g = ctx.graph(f, inline=lambda h, _w=None:
                          h.module is f.module and h.cls is f.cls and
                          'ropertySet' not in h.name)
        except Exception:
            g = ctx.graphs.get(f)
        for n in g.nodes:
            v = n.get('value')
            if n.kind != 'return' or not isinstance(v, Term):
                continue
            ids = idents(v)
            if len(ids) == 1:
                ctx.check(ids == {ATTRS[f.name]}, R, f.fullname,
                          'shows %s' % sorted(ids)[0], ctx.where(n))
            elif is_const(v) and cval(v) is None:
                ctx.bad(R, f.fullname, 'shows nothing', ctx.where(n))
    for f, g in ctx.graphs.items():
        if 'ummary' not in f.fullname or f.cls is None:
            continue
        for n in g.nodes:
            v = n.get('value')
            if n.kind != 'yield' or not isinstance(v, Term):
                continue
            texts = [cval(x) for x in subterms(v) if is_const(x) and
                     isinstance(cval(x), str)]
            attrs = [x.args[1] for x in subterms(v) if x.op == 'attr' and
                     x.args[1] in ATTRS]
            labels = [t.split(':')[0].strip() for t in texts]
            labels = [t for t in labels if t in LINES]
            if len(labels) == 1 and len(attrs) == 1:
                ctx.check(attrs[0] == LINES[labels[0]], R,
                          '%s %s' % (f.fullname, labels[0]),
                          'shows %s' % attrs[0], ctx.where(n))
    # the set whose class identifier matches
    for f in prog.functions:
        if f.name != 'getHwpSummaryInfoPropertySet':
            continue
        g = ctx.graphs.get(f)
        for n in g.nodes if g else ():
            if n.kind == 'branch' and n.cond.op == 'cmp' and \
                    'CLSID' in str(n.cond):
                names = {x.args[1] for x in subterms(n.cond)
                         if x.op == 'attr' and x.args[1] in (
                             'clsid', 'fmtid', 'version', 'byteOrder')}
                ctx.check(bool(names & {'clsid', 'fmtid'}), R,
                          f.fullname, 'compares %s' % short(n.cond, 60),
                          ctx.where(n))


MS = 'hwp5/msoleprops.py'
SI = 'hwp5/summaryinfo.py'
FS = 'hwp5/filestructure.py'

witnesses = [
    ('type code of 12 bits', 'hwp5/msoleprops.py',
     "0, 15, 'code')", "0, 11, 'code')"),
    ('number of a property', MS, "    id=0x0e,\n    label='PIDSI_PAGECOUNT'",
     "    id=0x0f,\n    label='PIDSI_PAGECOUNT'"),
    ('label of a property', MS, "label='PIDSI_EDITTIME'",
     "label='PIDSI_EDITIME'"),
    ('left out of the table', MS, "    PIDSI_APPNAME,\n    PIDSI_SECURITY,\n)",
     "    PIDSI_APPNAME,\n)"),
    ('hwp property left out', SI, "    HWPPIDSI_DATE_STR,\n    HWPPIDSI_PARA",
     "    HWPPIDSI_PARA"),
    ('class id', SI, "9fa2b660-1061-11d4-b4c6", "9fa2b660-1061-11d4-b4c7"),
    ('uuid byte order', MS, "UUID(bytes_le=bytes_le)",
     "UUID(bytes=bytes_le)"),
    ('type code', MS, "@PropertyType(code=0x001F)",
     "@PropertyType(code=0x001E)"),
    ('words swapped', MS, "value = hword << 32 | lword",
     "value = lword << 32 | hword"),
    ('words read in the wrong order', MS, [
        ("        lword = read_type(UINT32, context, f)\n"
         "        hword = read_type(UINT32, context, f)\n",
         "        hword = read_type(UINT32, context, f)\n"
         "        lword = read_type(UINT32, context, f)\n")]),
    ('bytes for characters', MS, "data = f.read(length * 2)",
     "data = f.read(length)"),
    ('null kept', MS, "return data.decode('utf-16le')[:-1]",
     "return data.decode('utf-16le')"),
    ('unsigned', MS, "return read_type(INT32, context, f)",
     "return read_type(UINT32, context, f)"),
    ('epoch', MS, "datetime(1601, 1, 1, 0, 0, 0)",
     "datetime(1970, 1, 1, 0, 0, 0)"),
    ('not exact', MS, "self.value // 10)", "self.value / 10)"),
    ('offset in the stream', MS,
     "        f.seek(self.propsetDesc.offset + self.propDesc.offset)",
     "        f.seek(self.propDesc.offset)"),
    ('dictionary read where the stream is', MS,
     "        f.seek(propsetDesc.offset + propDesc.offset)\n", ""),
    ('set read where the stream is', MS,
     "            f.seek(propsetDesc.offset)\n", ""),
    ('label of the codepage', MS, [
        ("            for propDesc in propDescMap.values():\n"
         "                idLabel = idLabels.get(propDesc.id)\n",
         "            codepageDesc = propDesc\n"
         "            for propDesc in propDescMap.values():\n"
         "                idLabel = idLabels.get(propDesc.offset)\n")]),
    ('codepage dropped', MS, """                prop = propReader.read(f)
                properties.append(prop)

                codepage = prop.value""", """                prop = propReader.read(f)

                codepage = prop.value"""),
    ('properties without label are skipped', MS,
     "            for propDesc in propDescMap.values():\n"
     "                idLabel = idLabels.get(propDesc.id)\n",
     "            for propDesc in propDescMap.values():\n"
     "                idLabel = idLabels.get(propDesc.id)\n"
     "                if idLabel is None:\n                    continue\n"),
    ('attribute shows another', FS, [
        ("        from .msoleprops import PIDSI_LASTAUTHOR\n"
         "        return self.propertySet[PIDSI_LASTAUTHOR]",
         "        from .msoleprops import PIDSI_AUTHOR\n"
         "        return self.propertySet[PIDSI_AUTHOR]")]),
    ('line shows another', SI,
     "'Created at: {}'.format(hwpsummaryinfo.createdTime)",
     "'Created at: {}'.format(hwpsummaryinfo.lastSavedTime)"),
    ('lookup by offset', MS,
     "if property.id == propertyIdentifier.id:",
     "if property.idLabel == propertyIdentifier.id:"),
]

benign = [
    ('hexadecimal', MS, "    id=0x0e,\n", "    id=14,\n"),
    ('helper', MS, [
        ("    def read(self, f):\n"
         "        f.seek(self.propsetDesc.offset + self.propDesc.offset)\n",
         "    def seek(self, f):\n        where = self.propDesc.offset\n"
         "        f.seek(where + self.propsetDesc.offset, 0)\n\n"
         "    def read(self, f):\n        self.seek(f)\n")]),
    ('or', MS, "value = hword << 32 | lword", "value = lword + (hword << 32)"),
    ('local', MS, "        data = f.read(length * 2)\n",
     "        size = 2 * length\n        data = f.read(size)\n"),
    ('getter', FS, [
        ("        return self.propertySet[PIDSI_LASTAUTHOR]",
         "        return self.get_property(PIDSI_LASTAUTHOR)\n\n"
         "    def get_property(self, pid):\n"
         "        return self.propertySet[pid]")]),
]
