# -*- coding: utf-8 -*-
"""Bit-provenance domain: every bit of an integer term is 0, 1, a given bit of
a source term, or unknown."""
from .terms import T, Term, is_const, subterms

ZERO, ONE, UNK = 0, 1, '?'


class Bits:
    """bits: list (lsb first) of ZERO/ONE/UNK/(src, i); the rest is zero"""

    def __init__(self, bits):
        b = list(bits)
        while b and b[-1] == ZERO and not isinstance(b[-1], tuple):
            b.pop()
        self.b = b

    def get(self, i):
        return self.b[i] if i < len(self.b) else ZERO

    def __eq__(self, o):
        return self.b == o.b

    def __repr__(self):
        return 'Bits(%r)' % (self.b,)

    def known(self):
        return UNK not in self.b


def src_bits(src, width):
    return Bits([(src, i) for i in range(width)])


def const_bits(v):
    if v < 0:
        return None
    return Bits([(v >> i) & 1 for i in range(v.bit_length())])


def bits_of(t, width_of, _memo=None):
    """width_of(term) -> number of bits when the term is an unsigned source
    word, else None.  Returns Bits or None."""
    memo = {} if _memo is None else _memo
    if t in memo:
        return memo[t]
    r = _bits(t, width_of, memo)
    memo[t] = r
    return r


def _bits(t, width_of, memo):
    w = width_of(t)
    if w is not None:
        return src_bits(t, w)
    if is_const(t):
        v = t.args[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return const_bits(v)
        return None
    if t.op == 'bin':
        op, x, y = t.args
        a = bits_of(x, width_of, memo)
        b = bits_of(y, width_of, memo)
        if op in ('<<', '>>') and is_const(y) and a is not None:
            n = y.args[0]
            if op == '<<':
                return Bits([ZERO] * n + a.b)
            return Bits(a.b[n:])
        if op == '*' and is_const(y) and a is not None and _pow2(y):
            return Bits([ZERO] * _pow2(y) + a.b)
        if op == '*' and is_const(x) and b is not None and _pow2(x):
            return Bits([ZERO] * _pow2(x) + b.b)
        if op == '//' and is_const(y) and a is not None and \
                _pow2(y) is not None:
            return Bits(a.b[_pow2(y):])
        if op == '%' and is_const(y) and a is not None and \
                _pow2(y) is not None:
            return Bits(a.b[:_pow2(y)])
        if op == '&':
            if a is None and b is None:
                return None
            if a is None or b is None:
                k = a or b
                return Bits([ZERO if z == ZERO else UNK for z in k.b])
            out = []
            for i in range(min(len(a.b), len(b.b))):
                p, q = a.b[i], b.b[i]
                if p == ZERO or q == ZERO:
                    out.append(ZERO)
                elif p == ONE:
                    out.append(q)
                elif q == ONE:
                    out.append(p)
                elif p == q:
                    out.append(p)
                else:
                    out.append(UNK)
            return Bits(out)
        if a is None or b is None:
            return None
        if op in ('|', '+', '^'):
            n = max(len(a.b), len(b.b))
            out = []
            for i in range(n):
                p, q = a.get(i), b.get(i)
                if p == ZERO:
                    out.append(q)
                elif q == ZERO:
                    out.append(p)
                elif op == '|' and (p == ONE or q == ONE):
                    out.append(ONE)
                elif op == '|' and p == q:
                    out.append(p)
                elif op == '+':
                    return Bits(out + [UNK] * (n + 1 - i))
                elif op == '^' and p == q and p != UNK:
                    out.append(ZERO)
                else:
                    out.append(UNK)
            return Bits(out)
        return None
    if t.op == 'pure' and t.args[0].op == 'ext' and \
            t.args[0].args[0] in ('builtins.int', 'builtins.long') and \
            len(t.args[1]) == 1:
        return bits_of(t.args[1][0], width_of, memo)
    if t.op == 'res' and t.args[1].op == 'ext' and \
            t.args[1].args[0] == 'builtins.int' and len(t.args[2]) == 1:
        return bits_of(t.args[2][0], width_of, memo)
    return None


def _pow2(t):
    v = t.args[0]
    if isinstance(v, int) and v > 0 and v & (v - 1) == 0:
        return v.bit_length() - 1
    return None


def expand(t, limit=64):
    """[(conditions [(cond, polarity)], leaf)] of an ite/phi term"""
    out = []

    def rec(t, conds):
        if len(out) > limit:
            return
        if t.op == 'ite':
            rec(t.args[1], conds + [(t.args[0], True)])
            rec(t.args[2], conds + [(t.args[0], False)])
        elif t.op == 'phi':
            for x in t.args:
                rec(x, conds + [(None, True)])
        elif t.op in ('tuple', 'list') and any(
                isinstance(x, Term) and x.op in ('ite', 'phi')
                for x in t.args):
            i = [k for k, x in enumerate(t.args)
                 if x.op in ('ite', 'phi')][0]
            for c, x in expand(t.args[i]):
                a = list(t.args)
                a[i] = x
                # consistent choice for equal conditions
                a = [pick(y, c) for y in a]
                rec(T(t.op, *a), conds + c)
        elif t.op == 'bin':
            xs = expand(t.args[1])
            ys = expand(t.args[2])
            if len(xs) == 1 and len(ys) == 1:
                out.append((conds, t))
            else:
                for c1, x in xs:
                    for c2, y in [(c, pick(z, c1)) for c, z in ys]:
                        if compatible(c1, c2):
                            out.append((conds + c1 + c2,
                                        T('bin', t.args[0], x, y)))
        else:
            out.append((conds, t))
    rec(t, [])
    return out


def pick(t, conds):
    while isinstance(t, Term) and t.op == 'ite':
        for c, p in conds:
            if c is t.args[0]:
                t = t.args[1] if p else t.args[2]
                break
        else:
            break
    return t


def compatible(c1, c2):
    d = {}
    for c, p in list(c1) + list(c2):
        if c is None:
            continue
        if d.setdefault(c, p) != p:
            return False
    return True


def cond_bits(cond, pol, width_of):
    """constraint on source bits expressed by a comparison with a constant:
    ('allones', frozenset of (src, i)) / ('notallones', ...) / None"""
    if cond is None:
        return None
    if cond.op == 'not':
        return cond_bits(cond.args[0], not pol, width_of)
    if cond.op != 'cmp' or not is_const(cond.args[2]):
        return None
    op, l, r = cond.args
    v = r.args[0]
    if not isinstance(v, int):
        return None
    b = bits_of(l, width_of)
    if b is None or not b.known():
        return None
    pos = [i for i, x in enumerate(b.b) if isinstance(x, tuple)]
    top = sum(1 << i for i in pos)
    srcs = frozenset(b.b[i] for i in pos)
    if op in ('==', '!='):
        if v == top:
            return ('allones' if (op == '==') == pol else 'notallones', srcs)
        return None
    # >= top, > top-1, < top, <= top-1 (contiguous from bit p)
    step = 1 << pos[0] if pos else 1
    if op == '>=' and top - step < v <= top or op == '>' and \
            top - step <= v < top:
        return ('allones' if pol else 'notallones', srcs)
    if op == '<' and top - step < v <= top or op == '<=' and \
            top - step <= v < top:
        return ('notallones' if pol else 'allones', srcs)
    return None
