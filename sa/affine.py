# -*- coding: utf-8 -*-
"""Bits of affine functions of a word modulo 2^32 (congruential generators).

A value is a Bits whose entries are 0, 1, '?' or (key, i), where key is a
source term or ('aff', source, a, c): bit i of (a * source + c) mod 2^32."""
from .bits import Bits, ZERO, UNK, const_bits, _pow2
from .terms import is_const

M = 1 << 32


def word(src):
    return Bits([(('aff', src, 1, 0), i) for i in range(32)])


def as_affine(b):
    """(source, a, c) if b is a whole word of an affine function"""
    if len(b.b) == 32 and all(isinstance(x, tuple) and x[1] == i and
                              x[0] == b.b[0][0]
                              for i, x in enumerate(b.b)):
        k = b.b[0][0]
        if isinstance(k, tuple) and k[0] == 'aff':
            return k[1:]
    return None


class Affine:
    """value of arithmetic before it is reduced: a*src+c, low 32 bits known"""

    def __init__(self, src, a, c):
        self.src, self.a, self.c = src, a % M, c % M

    def bits(self, width=32):
        return Bits([(('aff', self.src, self.a, self.c), i)
                     for i in range(32)] + [UNK])


def eval_(t, leaf):
    """Bits / Affine / int of a term, or None"""
    v = leaf(t)
    if v is not None:
        return v
    if is_const(t):
        x = t.args[0]
        return int(x) if isinstance(x, (int, bool)) else None
    if t.op == 'ite':
        return None
    if t.op != 'bin':
        return None
    op, x, y = t.args
    a, b = eval_(x, leaf), eval_(y, leaf)
    if a is None or b is None:
        return None
    if isinstance(a, int) and isinstance(b, int):
        try:
            return {'+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, '&': lambda: a & b,
                    '|': lambda: a | b, '^': lambda: a ^ b,
                    '<<': lambda: a << b, '>>': lambda: a >> b,
                    '%': lambda: a % b, '//': lambda: a // b,
                    '**': lambda: a ** b}[op]()
        except (KeyError, ZeroDivisionError, ValueError):
            return None
    if op in ('+', '-', '*') and (isinstance(a, int) or isinstance(b, int)):
        if isinstance(a, int) and op == '-':
            return None
        v, k = (b, a) if isinstance(a, int) else (a, b)
        if isinstance(v, Bits):
            f = as_affine(v)
            if f is None:
                return None
            v = Affine(*f)
        if op == '*':
            return Affine(v.src, v.a * k, v.c * k)
        return Affine(v.src, v.a, v.c + (k if op == '+' else -k))
    A = a.bits() if isinstance(a, Affine) else a
    B = b.bits() if isinstance(b, Affine) else b
    if op in ('<<', '>>') and isinstance(b, int) and isinstance(A, Bits):
        return Bits([ZERO] * b + A.b) if op == '<<' else Bits(A.b[b:])
    if op in ('%', '//') and isinstance(b, int) and b > 0 and \
            b & (b - 1) == 0 and isinstance(A, Bits):
        n = b.bit_length() - 1
        return Bits(A.b[:n]) if op == '%' else Bits(A.b[n:])
    if op in ('&', '|', '^', '+'):
        if isinstance(A, int):
            A = const_bits(A)
        if isinstance(B, int):
            B = const_bits(B)
        if A is None or B is None:
            return None
        n = max(len(A.b), len(B.b))
        out = []
        for i in range(n):
            p, q = A.get(i), B.get(i)
            if op == '&':
                r = ZERO if p == ZERO or q == ZERO else \
                    q if p == 1 else p if q == 1 else \
                    p if p == q else UNK
            else:
                r = q if p == ZERO else p if q == ZERO else UNK
                if op == '+' and UNK == r:
                    return None
            out.append(r)
        return Bits(out)
    return None


def bits(t, leaf):
    v = eval_(t, leaf)
    if isinstance(v, int):
        return const_bits(v)
    if isinstance(v, Affine):
        return v.bits()
    return v


def linear(t):
    """(constant, {term: coefficient}) of a sum"""
    if is_const(t) and isinstance(t.args[0], int):
        return t.args[0], {}
    if t.op == 'bin' and t.args[0] in ('+', '-'):
        s = 1 if t.args[0] == '+' else -1
        k1, d1 = linear(t.args[1])
        k2, d2 = linear(t.args[2])
        d = dict(d1)
        for x, n in d2.items():
            d[x] = d.get(x, 0) + s * n
        return k1 + s * k2, {x: n for x, n in d.items() if n}
    if t.op == 'bin' and t.args[0] == '*' and any(
            is_const(x) and isinstance(x.args[0], int) for x in t.args[1:]):
        a, b = t.args[1:]
        if not is_const(a):
            a, b = b, a
        k, d = linear(b)
        n = a.args[0]
        return k * n, {x: c * n for x, c in d.items()}
    return 0, {t: 1}
