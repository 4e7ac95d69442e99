# -*- coding: utf-8 -*-
"""Hash-consed value terms (the value domain of the value-flow analysis)."""


class Term:
    __slots__ = ('op', 'args', '_h', '_r')
    _table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(
            ('#', type(a).__name__, a) if not isinstance(a, (Term, tuple))
            else a for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            t._r = None
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return repr(self) < repr(other)


T = Term


def const(v):
    return T('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNBOUND = T('unbound')
TOP = T('top')


def is_const(t):
    return isinstance(t, Term) and t.op == 'const'


def cval(t, default=None):
    return t.args[0] if is_const(t) else default


def mk_tuple(items):
    return T('tuple', *items)


def mk_list(items):
    return T('list', *items)


def phi(items):
    flat = []
    for t in items:
        if t.op == 'phi':
            flat.extend(t.args)
        else:
            flat.append(t)
    seen = []
    for t in flat:
        if t not in seen:
            seen.append(t)
    if len(seen) == 1:
        return seen[0]
    if len(seen) > 24:
        return TOP
    return T('phi', *seen)


def mk_not(c):
    if c.op == 'not':
        return c.args[0]
    if is_const(c):
        return const(not c.args[0])
    if c.op == 'cmp':
        neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=',
               '<=': '>', 'is': 'is not', 'is not': 'is', 'in': 'not in',
               'not in': 'in'}
        return T('cmp', neg[c.args[0]], c.args[1], c.args[2])
    return T('not', c)


def ite(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if c.args[0] else b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'cmp' and c.args[0] in ('!=', '>=', 'is not', 'not in', '>'):
        # canonical polarity
        return T('ite', mk_not(c), b, a)
    return T('ite', c, a, b)


def alternatives(t):
    """leaf values a phi/ite term may take"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            st.extend(x.args)
        elif x.op == 'ite':
            st.extend(x.args[1:])
        elif x.op == 'loopvar' and len(x.args) > 2 and \
                isinstance(x.args[2], Term):
            out.append(x)
        else:
            out.append(x)
    return out


def subterms(t, _seen=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.args)


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return getattr(t, 'fullname', None) or repr(t)
    if depth > 9:
        return '...'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'ext':
        return a[0][9:] if a[0].startswith('builtins.') else a[0]
    if op in ('func', 'class'):
        return a[0].name
    if op == 'inst':
        return '<%s>' % a[0].name
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if op == 'bound':
        return '%s.%s' % (show(a[0], d), a[1].name)
    if op in ('tuple',):
        return '(' + ', '.join(show(x, d) for x in a) + \
            (',)' if len(a) == 1 else ')')
    if op in ('list', 'set'):
        return op[0] + '[' + ', '.join(show(x, d) for x in a) + ']'
    if op == 'dict':
        return '{' + ', '.join('%s: %s' % (show(k, d), show(v, d))
                               for k, v in a) + '}'
    if op == 'cmp':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if op == 'bin':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if op == 'res':
        return '%s%s#%s' % (show(a[1], d), _args(a[2], a[3], d), a[0])
    if op == 'pure':
        return '%s%s' % (show(a[0], d), _args(a[1], a[2], d))
    if op == 'ite':
        return '(%s if %s else %s)' % (show(a[1], d), show(a[0], d),
                                       show(a[2], d))
    if op == 'phi':
        return 'phi(' + ', '.join(show(x, d) for x in a) + ')'
    if op == 'sub':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if op == 'elem':
        return 'elem(%s)' % show(a[0], d)
    return '%s(%s)' % (op, ', '.join(show(x, d) for x in a))


def _args(args, kw, d):
    s = [show(x, d) for x in args] + \
        ['%s=%s' % (k, show(v, d)) for k, v in kw]
    return '(' + ', '.join(s) + ')'


def canon(t, _memo=None):
    """term without node identities (for comparing across program points)"""
    memo = {} if _memo is None else _memo
    if isinstance(t, tuple):
        return tuple(canon(x, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    if t.op == 'res':
        r = T('res', 0, *[canon(x, memo) for x in t.args[1:]])
    elif t.op in ('const', 'sym', 'ext', 'func', 'class'):
        r = t
    else:
        r = T(t.op, *[canon(x, memo) for x in t.args])
    memo[t] = r
    return r
