"""Reads the small part of LaTeX mathematics that equations are written in, and evaluates it."""
import re

import mpmath
from mpmath import mpf

TOKEN = re.compile(r'\\[A-Za-z]+|\\.|[0-9]+(?:\.[0-9]+)?|[{}()^+*/=-]|[A-Za-z]')


class Unreadable(Exception):
    pass


class Reader:
    """names: the texts that stand for values (a constant's name may be anything, and is taken as a whole)."""
    def __init__(self, text, names):
        self.names = sorted(names, key=len, reverse=True)
        self.text, self.pos = text, 0

    def skip(self):
        while self.pos < len(self.text) and (self.text[self.pos].isspace() or self.text.startswith('\\,', self.pos)):
            self.pos += 2 if self.text[self.pos] == '\\' else 1

    def peek(self):
        self.skip()
        if self.pos >= len(self.text):
            return None, self.pos
        for n in self.names:
            if self.text.startswith(n, self.pos):
                end = self.pos + len(n)
                # \pi isn't the beginning of \pivot, nor x that of xy
                if not (n[-1].isalpha() and n[0] == '\\' and end < len(self.text) and self.text[end].isalpha()):
                    return ('name', n), end
        m = TOKEN.match(self.text, self.pos)
        if not m:
            raise Unreadable('%r at %d of %r' % (self.text[self.pos], self.pos, self.text))
        return m.group(), m.end()

    def next(self):
        t, self.pos = self.peek()
        return t

    def expect(self, t):
        g = self.next()
        if g != t:
            raise Unreadable('%r instead of %r before %d of %r' % (g, t, self.pos, self.text))

    # sum := term (+- term)*
    def sum(self):
        out = self.term()
        while True:
            t, _ = self.peek()
            if t == '+':
                self.next()
                out = ('+', out, self.term())
            elif t == '-':
                self.next()
                out = ('-', out, self.term())
            else:
                return out

    # term := sign* power (cdot? power)*
    def term(self):
        t, _ = self.peek()
        if t == '-':
            self.next()
            return ('neg', self.term())
        if t == '+':
            self.next()
            return self.term()
        out = self.power()
        while True:
            t, _ = self.peek()
            if t in (r'\cdot', r'\times', '*'):
                self.next()
                s, _ = self.peek()
                if s == '-':
                    self.next()
                    out = ('*', out, ('neg', self.power()))
                else:
                    out = ('*', out, self.power())
            elif t == '/':
                self.next()
                out = ('/', out, self.power())
            elif t is None or t in ('+', '-', '}', ')', '=', r'\right'):
                return out
            else:
                if isinstance(t, str) and t[0].isdigit():
                    # a number can't just follow another factor
                    raise Unreadable('%r at %d of %r' % (t, self.pos, self.text))
                out = ('*', out, self.power())

    def power(self):
        base = self.atom()
        t, _ = self.peek()
        if t == '^':
            self.next()
            self.skip()
            if self.text[self.pos] == '{':
                e = self.group()
            else:
                # a single character
                if not self.text[self.pos].isalnum():
                    raise Unreadable('exponent at %d of %r' % (self.pos, self.text))
                e = ('num', int(self.text[self.pos]))
                self.pos += 1
            return ('^', base, e)
        return base

    def group(self):
        self.expect('{')
        out = self.sum()
        self.expect('}')
        return out

    def parens(self):
        t = self.next()
        if t == r'\left':
            self.expect('(')
            out = self.sum()
            self.expect(r'\right')
            self.expect(')')
            return out
        if t == '(':
            out = self.sum()
            self.expect(')')
            return out
        raise Unreadable('%r before %d of %r' % (t, self.pos, self.text))

    def atom(self):
        t, end = self.peek()
        if t is None:
            raise Unreadable('end of %r' % self.text)
        if isinstance(t, tuple):
            self.next()
            return t
        if t == '{':
            return self.group()
        if t in ('(', r'\left'):
            return self.parens()
        self.next()
        if t[0].isdigit():
            return ('num', mpf(t))
        if t in (r'\frac', r'\cfrac', r'\dfrac', r'\tfrac'):
            return ('/', self.group(), self.group())
        if t == r'\sqrt':
            return ('f', 'sqrt', self.group())
        if t in (r'\sin', r'\cos', r'\tan', r'\cot', r'\exp', r'\ln', r'\log'):
            return ('f', t[1:].replace('log', 'ln'), self.parens())
        raise Unreadable('%r before %d of %r' % (t, self.pos, self.text))


def parse(text, names):
    r = Reader(text, names)
    out = r.sum()
    r.skip()
    if r.pos != len(text):
        raise Unreadable('%r is left of %r' % (text[r.pos:], text))
    return out


def parse_equation(text, names):
    """The sides of an equation."""
    sides = text.split('=')
    if len(sides) != 2:
        raise Unreadable('not an equation: %r' % text)
    return [parse(s, names) for s in sides]


def names_in(t):
    if t[0] == 'name':
        return {t[1]}
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            out |= names_in(x)
    return out


FUNCS = {'sqrt': mpmath.sqrt, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'cot': mpmath.cot,
         'exp': mpmath.exp, 'ln': mpmath.ln}


def evaluate(t, values):
    k = t[0]
    if k == 'num':
        return mpf(t[1])
    if k == 'name':
        return mpf(values[t[1]])
    if k == 'neg':
        return -evaluate(t[1], values)
    if k == 'f':
        x = evaluate(t[2], values)
        if k == 'f' and t[1] == 'sqrt' and x < 0:
            return mpf('nan')
        if t[1] == 'ln' and x <= 0:
            return mpf('nan')
        return FUNCS[t[1]](x)
    x, y = evaluate(t[1], values), evaluate(t[2], values)
    if k == '+':
        return x + y
    if k == '-':
        return x - y
    if k == '*':
        return x * y
    if k == '/':
        if y == 0:
            raise ZeroDivisionError()
        return x / y
    if k == '^':
        if y != int(y):
            return x ** y
        return x ** int(y)
    raise ValueError(k)
