"""Expressions in Schubert symbols on the harness side: syntax trees (the
arguments handed to the library and to the specification), an independent reader
of printed results, and a walker over sympy results.  No mathematics of the
Grassmannian happens here: polynomials are only collected, never interpreted."""
import json
import random
import re
from fractions import Fraction
from math import gcd

QN = ('q', 'q1', 'q2')

# ---- syntax trees -----------------------------------------------------------


def S(l):
    return {"k": "S", "l": list(l)}


def num(v):
    return {"k": "n", "v": v}


def qv(i):
    return {"k": "q", "i": i}


def add(*a):
    return {"k": "add", "a": list(a)}


def mul(*a):
    return {"k": "mul", "a": list(a)}


def neg(x):
    return {"k": "neg", "x": x}


def sub(x, y):
    return {"k": "sub", "x": x, "y": y}


def power(x, e):
    return {"k": "pow", "x": x, "e": e}


def label_text(l):
    return 'S' + str(list(l)).replace(' ', '')


# ---- polynomials: {(q-exponents, ((label, exp), ...)): Fraction} -------------

def lab_key(l):
    return tuple(lab_key(x) if isinstance(x, (list, tuple)) else x for x in l)


def lab_list(l):
    return [lab_list(x) if isinstance(x, tuple) else x for x in l]


def p_const(c):
    return {((0, 0, 0), ()): Fraction(c)} if c != 0 else {}


def p_add(a, b, s=1):
    r = dict(a)
    for t, c in b.items():
        v = r.get(t, 0) + s * c
        if v:
            r[t] = v
        else:
            r.pop(t, None)
    return r


def p_mul(a, b):
    r = {}
    for (q1, m1), c1 in a.items():
        for (q2, m2), c2 in b.items():
            m = dict(m1)
            for l, e in m2:
                m[l] = m.get(l, 0) + e
            t = (tuple(x + y for x, y in zip(q1, q2)), tuple(sorted(m.items(), key=repr)))
            v = r.get(t, 0) + c1 * c2
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def p_pow(a, e):
    r = p_const(1)
    for _ in range(e):
        r = p_mul(r, a)
    return r


def p_sym(l):
    return {((0, 0, 0), ((lab_key(l), 1),)): Fraction(1)}


def p_q(i):
    return {(tuple(1 if j == i else 0 for j in (1, 2, 3)), ()): Fraction(1)}


class NotPolynomial(Exception):
    pass


FLOATS = [False]     # whether computations start from floating-point numbers


def fraction(text):
    if not FLOATS[0]:
        raise NotPolynomial("the coefficient %s is not exact" % text)
    return Fraction(text).limit_denominator(10 ** 6)


def record(p):
    """JSON form of a polynomial."""
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    kinds = {('pair' if is_pair(l) else 'flat' if is_flat(l) else 'odd') for (q, m) in p for l, e in m}
    if kinds <= {'flat'}:
        kind = 'poly'
    elif kinds == {'pair'}:
        kind = 'ppoly'
    else:
        return {"kind": "odd", "text": repr(p)[:300]}
    terms = []
    for (q, m), c in sorted(p.items(), key=repr):
        n = int(c * den)
        if abs(n) >= 2 ** 31 or den >= 2 ** 31 or any(e >= 2 ** 31 for e in q):
            return {"kind": "big"}
        for l, e in m:
            if any(isinstance(x, int) and abs(x) >= 2 ** 31 for x in l):
                return {"kind": "big"}
        terms.append({"c": n, "q": list(q), "m": [[lab_list(l), e] for l, e in m]})
    return {"kind": kind, "den": den, "t": terms}


def is_flat(l):
    return all(isinstance(x, int) and not isinstance(x, bool) for x in l)


def is_pair(l):
    return len(l) == 2 and all(isinstance(x, tuple) and is_flat(x) for x in l)


# ---- reading printed text ----------------------------------------------------

class Reader:
    """Recursive-descent reader of what the library prints."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def fail(self):
        raise NotPolynomial("cannot read %r at %d" % (self.s, self.i))

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def all(self):
        r = self.sum()
        self.ws()
        if self.i != len(self.s):
            self.fail()
        return r

    def sum(self):
        if self.eat('-'):
            r = p_mul(p_const(-1), self.prod())
        else:
            self.eat('+')
            r = self.prod()
        while True:
            if self.eat('+'):
                r = p_add(r, self.prod())
            elif self.eat('-'):
                r = p_add(r, self.prod(), -1)
            else:
                return r

    def prod(self):
        r = self.factor()
        while True:
            if self.peek('**'):
                return r
            if self.eat('*'):
                r = p_mul(r, self.factor())
            elif self.eat('/'):
                d = self.factor()
                if len(d) != 1 or next(iter(d)) != ((0, 0, 0), ()):
                    self.fail()
                r = p_mul(r, p_const(1 / d[((0, 0, 0), ())]))
            else:
                return r

    def factor(self):
        if self.eat('-'):
            return p_mul(p_const(-1), self.factor())
        b = self.base()
        if self.eat('**') or self.eat('^'):
            par = self.eat('(')
            e = self.integer()
            if par and not self.eat(')'):
                self.fail()
            b = p_pow(b, e)
        return b

    def integer(self):
        self.ws()
        j = self.i
        while j < len(self.s) and self.s[j].isdigit():
            j += 1
        if j == self.i:
            self.fail()
        v = int(self.s[self.i:j])
        self.i = j
        return v

    def base(self):
        self.ws()
        if self.eat('('):
            r = self.sum()
            if not self.eat(')'):
                self.fail()
            return r
        if self.peek('S['):
            self.i += 1
            return p_sym(self.bracket())
        if self.peek('q'):
            for i in (3, 2):
                n = QN[i - 1]
                if self.s.startswith(n, self.i):
                    self.i += len(n)
                    return p_q(i)
            self.i += 1
            if self.i < len(self.s) and (self.s[self.i].isalnum() or self.s[self.i] == '_'):
                self.fail()
            return p_q(1)
        return p_const(self.decimal())

    def decimal(self):
        m = re.compile(r'\d+\.\d*(e[+-]?\d+)?').match(self.s, self.i)
        if not m:
            return self.integer()
        self.i = m.end()
        return fraction(m.group(0))

    def bracket(self):
        if not self.eat('['):
            self.fail()
        r = []
        if self.eat(']'):
            return r
        while True:
            if self.peek('['):
                r.append(self.bracket())
            else:
                s = -1 if self.eat('-') else 1
                r.append(s * self.integer())
            if self.eat(']'):
                return r
            if not self.eat(','):
                self.fail()


def read_text(s):
    return Reader(s).all()


# ---- walking sympy results ----------------------------------------------------

def symbol_label(name):
    """Label of a Schubert symbol Sf2j1g, independent of the library's tables."""
    body = name[1:].replace('f', '[').replace('j', ',').replace('g', ']')
    return json.loads(body)


def walk(e):
    import sympy as sp
    if isinstance(e, (int,)):
        return p_const(e)
    if isinstance(e, sp.Rational):
        return p_const(Fraction(int(e.p), int(e.q)))
    if isinstance(e, sp.Float):
        return p_const(fraction(str(float(e))))
    if isinstance(e, sp.Symbol):
        n = str(e)
        if n in QN:
            return p_q(QN.index(n) + 1)
        if n.startswith('S'):
            try:
                return p_sym(symbol_label(n))
            except ValueError:
                raise NotPolynomial(n)
        raise NotPolynomial(n)
    if isinstance(e, sp.Add):
        r = {}
        for a in e.args:
            r = p_add(r, walk(a))
        return r
    if isinstance(e, sp.Mul):
        r = p_const(1)
        for a in e.args:
            r = p_mul(r, walk(a))
        return r
    if isinstance(e, sp.Pow):
        b, x = e.args
        if isinstance(x, sp.Integer) and x >= 0:
            return p_pow(walk(b), int(x))
        raise NotPolynomial(str(e))
    raise NotPolynomial(type(e).__name__)


# ---- rendering trees as inputs ------------------------------------------------

class Spelling:
    """Ways to write one tree as text; seeded."""

    def __init__(self, rng=None):
        self.r = rng

    def coin(self, p=0.5):
        return self.r is not None and self.r.random() < p

    def pw(self):
        return '**' if self.coin(0.4) else '^'

    def text(self, e, ctx=0):
        """ctx 0: sum allowed, 1: after a minus, 2: factor, 3: base of a power"""
        k = e["k"]
        if k == "S":
            s = label_text(e["l"])
        elif k == "n":
            s = str(e["v"])
            if e["v"] < 0:
                if ctx in (1, 2) and self.coin(0.3):
                    return s            # a + -2, a - -2, a*-2
                return '(' + s + ')' if ctx > 0 or self.coin(0.2) else s
        elif k == "q":
            s = QN[e["i"] - 1]
        elif k == "add":
            parts = list(e["a"])
            if not parts:
                return '0'
            if self.coin(0.5):
                self.r.shuffle(parts)
            if len(parts) == 1:
                return self.text(parts[0], ctx)
            out = []
            for i, p in enumerate(parts):
                sp_ = self.r.choice([' + ', '+', ' +', '+ ', '  +  ']) if self.r else ' + '
                t = self.text(p, 0 if p["k"] != "neg" else 1) if i == 0 else self.text(p, 1)
                out.append(t if i == 0 else sp_ + t)
            s = ''.join(out)
            return '(' + s + ')' if ctx > 0 or self.coin(0.1) else s
        elif k == "sub":
            s = self.text(e["x"], 0) + (self.r.choice([' - ', '-']) if self.r else ' - ') + self.text(e["y"], 1)
            return '(' + s + ')' if ctx > 0 else s
        elif k == "neg":
            s = '-' + self.text(e["x"], 2)
            return '(' + s + ')' if ctx > 2 or ctx > 0 and not self.coin(0.3) else s
        elif k == "mul":
            parts = list(e["a"])
            if not parts:
                return '1'
            if self.coin(0.4):
                self.r.shuffle(parts)
            if len(parts) == 1:
                return self.text(parts[0], ctx)
            s = (self.r.choice(['*', '*', ' * ']) if self.r else '*').join(self.text(p, 2) for p in parts)
            return '(' + s + ')' if ctx > 2 or self.coin(0.1) else s
        elif k == "pow":
            if self.coin(0.25) and 0 < e["e"] <= 3:
                return self.text(mul(*[e["x"]] * e["e"]), max(ctx, 2))
            s = self.text(e["x"], 3) + self.pw() + str(e["e"])
            return '(' + s + ')' if ctx > 2 else s
        else:
            raise ValueError(k)
        if k in ("S", "q") and self.coin(0.05):
            return '(' + s + ')'
        return s


def with_den(text, d):
    return text if d == 1 else '(' + text + ')/' + str(d)


def to_sympy(e):
    """The tree as a sympy expression, built with sympy operations only."""
    import sympy as sp
    k = e["k"]
    if k == "S":
        return sp.Symbol('S' + str(list(e["l"])).replace(' ', '').replace('[', 'f').replace(',', 'j').replace(']', 'g'))
    if k == "n":
        return sp.Integer(e["v"])
    if k == "q":
        return sp.Symbol(QN[e["i"] - 1])
    if k == "add":
        return sp.Add(*[to_sympy(x) for x in e["a"]])
    if k == "mul":
        return sp.Mul(*[to_sympy(x) for x in e["a"]])
    if k == "sub":
        return to_sympy(e["x"]) - to_sympy(e["y"])
    if k == "neg":
        return -to_sympy(e["x"])
    if k == "pow":
        return to_sympy(e["x"]) ** e["e"]
    raise ValueError(k)
