# -*- coding: utf-8 -*-
"""Stylesheets as trees with lines, and XPath 1.0 expressions as terms."""
import os
import re
import xml.parsers.expat

NS = 'http://www.w3.org/1999/XSL/Transform'


class Elem:
    def __init__(self, name, attrs, line, parent):
        self.name, self.attrs, self.line, self.parent = \
            name, attrs, line, parent
        self.children = []
        self.content = []       # texts and elements

    @property
    def xsl(self):
        """name of the instruction, None for literal results"""
        u, _, n = self.name.rpartition('|')
        return n if u == NS else None

    def walk(self):
        yield self
        for c in self.children:
            for x in c.walk():
                yield x


def parse(path, text=None):
    p = xml.parsers.expat.ParserCreate(namespace_separator='|')
    root, cur = [], [None]

    def start(name, attrs):
        e = Elem(name, attrs, p.CurrentLineNumber, cur[0])
        if cur[0] is None:
            root.append(e)
        else:
            cur[0].children.append(e)
            cur[0].content.append(e)
        cur[0] = e

    def end(name):
        cur[0] = cur[0].parent

    def data(s):
        c = cur[0].content if cur[0] is not None else []
        if c and isinstance(c[-1], str):
            c[-1] += s
        else:
            c.append(s)
    p.CharacterDataHandler = data
    p.StartElementHandler = start
    p.EndElementHandler = end
    if text is None:
        with open(path, 'rb') as f:
            text = f.read()
    p.Parse(text, True)
    return root[0]


# XPath ----------------------------------------------------------------------
TOK = re.compile(r'''\s*(?:(?P<lit>"[^"]*"|'[^']*')|(?P<num>\d+(?:\.\d*)?|\.\d+)
|(?P<op>\.\.|::|//|!=|<=|>=|[()\[\].@,/|+\-=<>*$])
|(?P<name>[A-Za-z_\u0080-\uffff][\w.\-\u0080-\uffff]*(?::(?!:)(?:[A-Za-z_*][\w.\-]*|\*))?))''', re.X)


class BadXPath(Exception):
    pass


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if m is None or m.end() == i:
            raise BadXPath('%r at %d' % (s, i))
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class P:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None,
                                                                    None)

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise BadXPath('%s expected, not %s' % (v, x[1]))
        self.i += 1
        return x

    def at(self, *vs):
        return self.peek()[0] == 'op' and self.peek()[1] in vs

    def word(self, *vs):
        """an operator name: only where an operand has just ended"""
        return self.peek()[0] == 'name' and self.peek()[1] in vs

    def expr(self, level=0):
        ops = [('or',), ('and',), ('=', '!='), ('<', '<=', '>', '>='),
               ('+', '-'), ('*', 'div', 'mod')]
        if level == len(ops):
            return self.unary()
        a = self.expr(level + 1)
        while self.peek()[1] in ops[level] and self.peek()[0] in ('op',
                                                                  'name'):
            o = self.take()[1]
            b = self.expr(level + 1)
            a = ('bin', o, a, b)
        return a

    def unary(self):
        if self.at('-'):
            self.take()
            return ('neg', self.unary())
        a = self.path()
        while self.at('|'):
            self.take()
            a = ('union', a, self.path())
        return a

    def path(self):
        k, v = self.peek()
        if k in ('lit', 'num') or k == 'op' and v in ('$', '(') or \
                k == 'name' and self.peek(1) == ('op', '(') and \
                v not in ('node', 'text', 'comment',
                          'processing-instruction'):
            a = self.primary()
            preds = self.preds()
            if preds:
                a = ('filter', a, preds)
            if self.at('/', '//'):
                return ('path', a, self.steps(True))
            return a
        if k == 'op' and v == '/':
            self.take()
            if self.peek()[0] is None or self.peek()[1] in (
                    ')', ']', '|', ',', '=', '!=') :
                return ('path', 'root', [])
            return ('path', 'root', self.steps(False))
        if k == 'op' and v == '//':
            return ('path', 'root', self.steps(True))
        return ('path', None, self.steps(False))

    def primary(self):
        k, v = self.take()
        if k == 'lit':
            return ('lit', v[1:-1])
        if k == 'num':
            return ('num', v)
        if v == '$':
            return ('var', self.take()[1])
        if v == '(':
            a = self.expr()
            self.take(')')
            return a
        self.take('(')
        args = []
        while not self.at(')'):
            args.append(self.expr())
            if self.at(','):
                self.take()
        self.take(')')
        return ('call', v, args)

    def preds(self):
        out = []
        while self.at('['):
            self.take()
            out.append(self.expr())
            self.take(']')
        return out

    def steps(self, sep):
        out = []
        first = not sep
        while True:
            if not first:
                if self.at('//'):
                    self.take()
                    out.append(('descendant-or-self', 'node()', []))
                elif self.at('/'):
                    self.take()
                else:
                    return out
            first = False
            out.append(self.step())

    def step(self):
        k, v = self.peek()
        if v == '.' and k == 'op':
            self.take()
            return ('self', 'node()', self.preds())
        if v == '..':
            self.take()
            return ('parent', 'node()', self.preds())
        axis = 'child'
        if v == '@' and k == 'op':
            self.take()
            axis = 'attribute'
        elif k == 'name' and self.peek(1) == ('op', '::'):
            axis = self.take()[1]
            self.take('::')
        k, v = self.take()
        if k == 'op' and v == '*':
            test = '*'
        elif k == 'name':
            test = v
            if self.at('('):
                self.take()
                while not self.at(')'):
                    self.take()
                self.take(')')
                test = v + '()'
        else:
            raise BadXPath('step %s' % v)
        return (axis, test, self.preds())


def xpath(s):
    p = P(s)
    e = p.expr()
    if p.peek()[0] is not None:
        raise BadXPath('%s left in %r' % (p.peek()[1], s))
    return e


def avt(s):
    """expressions within braces of an attribute value"""
    s = s.replace('{{', '').replace('}}', '')
    return re.findall(r'\{([^{}]*)\}', s)


def stylesheets(src):
    out = []
    for d, ds, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith('.xsl'):
                out.append(os.path.join(d, f))
    return sorted(out)
