"""A small reader of the LaTeX the package emits, and its meaning.

Reading rules are those of mathematics typesetting: a superscript or subscript
binds to the single preceding atom (symbol, braced group, parenthesised group,
\\frac{}{}), a symbol may carry at most one of each, and a_{s}^{p} = (a_s)^p
whatever the order in which _ and ^ are written.
AST: ('num', v) | ('sym', name) | ('add', a, b) | ('sub', a, b) | ('neg', a) |
     ('mul', a, b) | ('div', a, b) | ('pow', a, n) | ('diff', a, var, order) | ('fn', name, a)
"""
import re

TOK = re.compile(r"\s+|\\left\s*\||\\right\s*\||\\,|\\;|\\!|\\ |\\[a-zA-Z]+|\\_|\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|\.\d+|[A-Za-z]+\d*|[{}()_^+\-=*/,|\[\]]")


class LatexError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    while i < len(s):
        mt = TOK.match(s, i)
        if not mt:
            raise LatexError(f"unreadable at {s[i:i+20]!r} in {s!r}")
        t = mt.group(0)
        i = mt.end()
        if t.strip() == "" or t in ("\\,", "\\;", "\\!", "\\ ", "\\left", "\\right"):
            continue
        out.append("|<" if t.startswith("\\left") else "|>" if t.startswith("\\right") else t)
    return out


class Reader:
    strict = False        # refuse two numbers next to each other

    def __init__(self, s, axes, funcs=()):
        self.s, self.toks, self.i = s, tokenize(s), 0
        self.axes = sorted(axes, key=len, reverse=True)
        self.funcs = set(funcs)

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, t):
        g = self.next()
        if g != t:
            raise LatexError(f"expected {t} got {g} in {self.s}")

    def group_text(self):
        """raw tokens of a {...} group (or a single token)"""
        if self.peek() != "{":
            return [self.next()]
        self.next()
        d, out = 1, []
        while d:
            t = self.next()
            if t is None:
                raise LatexError("unbalanced braces in " + self.s)
            if t == "{":
                d += 1
            elif t == "}":
                d -= 1
                if not d:
                    break
            out.append(t)
        return out

    def sub_expr(self, toks):
        r = Reader.__new__(Reader)
        r.strict = self.strict
        r.s, r.toks, r.i, r.axes, r.funcs = self.s, toks, 0, self.axes, self.funcs
        return r

    def parse(self):
        e = self.sum()
        if self.peek() is not None:
            raise LatexError(f"trailing {self.toks[self.i:]} in {self.s}")
        return e

    def terms(self):
        """top-level signed terms"""
        out, sign = [], 1
        if self.peek() in "+-":
            sign = -1 if self.next() == "-" else 1
        while True:
            out.append((sign, self.product()))
            if self.peek() in ("+", "-"):
                sign = -1 if self.next() == "-" else 1
                while self.peek() in ("+", "-"):
                    sign *= -1 if self.next() == "-" else 1
            else:
                break
        return out

    def sum(self):
        if self.peek() is None:
            raise LatexError("empty expression in " + self.s)
        e = None
        for s, t in self.terms():
            if e is None:
                e = t if s > 0 else ("neg", t)
            else:
                e = ("add" if s > 0 else "sub", e, t)
        return e

    def product(self):
        e = self.factor()
        while True:
            t = self.peek()
            if t in ("\\cdot", "\\times", "*"):
                self.next()
                e = ("mul", e, self.factor())
            elif t is None or t in (")", "}", "+", "-", "=", ",", "|", "|>", "]"):
                return e
            else:
                if self.strict and t[0].isdigit() and self.toks[self.i - 1][0].isdigit():
                    raise LatexError(f"two adjacent numbers in {self.s}")
                e = ("mul", e, self.factor())

    def axis_word(self, toks):
        word = "".join(toks).replace("\\_", "_")
        out = []
        while word:
            for a in self.axes:
                if word.startswith(a):
                    out.append(a)
                    word = word[len(a):]
                    break
            else:
                return None
        return out

    def factor(self):
        sub = sup = None
        e = self.atom()
        if isinstance(e, tuple) and e and e[0] == "__fn":
            name = e[1]
            power = None
            if self.peek() == "^":
                self.next()
                power = self.sub_expr(self.group_text()).parse()
            if self.peek() == "(":
                self.next()
                a = self.sum()
                self.expect(")")
            elif self.peek() == "{":
                a = self.sub_expr(self.group_text()).parse()
            else:
                a = self.factor()
            r = ("fn", name, a)
            if power is None and self.peek() == "^":
                self.next()
                power = self.sub_expr(self.group_text()).parse()
            return ("pow", r, power) if power is not None else r
        while self.peek() in ("_", "^"):
            k = self.next()
            if k == "_":
                if sub is not None:
                    raise LatexError("double subscript in " + self.s)
                sub = self.group_text()
            else:
                if sup is not None:
                    raise LatexError("double superscript in " + self.s)
                sup = self.sub_expr(self.group_text()).parse()
        if sub is not None:
            ax = self.axis_word(sub)
            if ax is None:
                if e[0] == "sym":
                    e = ("sym", e[1] + "_" + "".join(sub).replace("\\_", "_"))
                else:
                    raise LatexError(f"meaningless subscript {sub} in {self.s}")
            else:
                # mixed/repeated partials commute: group equal neighbours
                for a in ax:
                    e = ("diff", e, a, 1)
        if sup is not None:
            e = ("pow", e, sup)
        return e

    def atom(self):
        t = self.next()
        if t is None:
            raise LatexError("unexpected end in " + self.s)
        if t == "(":
            e = self.sum()
            self.expect(")")
            return e
        if t == "{":
            self.i -= 1
            return self.sub_expr(self.group_text()).parse()
        if t in ("|", "|<"):
            e = self.sum()
            self.expect("|" if t == "|" else "|>")
            return ("fn", "abs", e)
        if t == "\\sqrt" and self.peek() == "[":
            self.next()
            n = self.next()
            self.expect("]")
            return ("pow", self.sub_expr(self.group_text()).parse(), ("div", ("num", 1.0), ("num", float(n))))
        if t == "\\sqrt":
            return ("fn", "sqrt", self.sub_expr(self.group_text()).parse())
        if t == "\\frac":
            num, den = self.group_text(), self.group_text()
            if num and num[0] == "\\partial" and den and den[0] == "\\partial":
                return self.leibniz(num, den)
            return ("div", self.sub_expr(num).parse(), self.sub_expr(den).parse())
        if t in ("\\operatorname", "\\mathrm", "\\text"):
            name = "".join(self.group_text())
            if name in self.funcs or self.peek() == "(":
                return ("__fn", name)
            return ("sym", name)
        if t.startswith("\\"):
            name = t[1:]
            if name == "nabla" and self.peek() == "^":
                self.next()
                if "".join(self.group_text()) != "2":
                    raise LatexError("power of a gradient in " + self.s)
                a = self.factor()
                return ("lap", a)
            if name in ("sign", "sin", "cos", "tan", "exp", "log", "ln", "tanh", "sinh", "cosh"):
                return ("__fn", name)
            return ("sym", name)
        if t[0].isdigit() or t[0] == ".":
            return ("num", float(t))
        if t[0].isalpha():
            if t in self.funcs and self.peek() in ("(", "^"):
                return ("__fn", t)
            return ("sym", t)
        raise LatexError(f"unexpected {t} in {self.s}")

    def leibniz(self, num, den):
        r, d = self.sub_expr(num), self.sub_expr(den)
        r.expect("\\partial")
        order = 1
        if r.peek() == "^":
            r.next()
            order = int("".join(r.group_text()))
        # the operand is in the numerator, or else the factor that follows
        arg = r.parse() if r.peek() is not None else self.factor()
        got = []
        while d.peek() is not None:
            d.expect("\\partial")
            v = d.next()
            if v == "{":
                d.i -= 1
                v = "".join(d.group_text())
            v = v.lstrip("\\")
            n = 1
            if d.peek() == "^":
                d.next()
                n = int("".join(d.group_text()))
            got.append((v, n))
        if sum(n for _, n in got) != order:
            raise LatexError(f"order mismatch in {self.s}")
        for v, n in got:
            arg = ("diff", arg, v, n)
        return arg


def parse_equation(s, axes, funcs=(), strict=False):
    """'lhs = rhs' -> (lhs AST, list of (sign, AST))"""
    if s.count("=") != 1:
        raise LatexError("not one '=' in " + s)
    l, r = s.split("=")
    lhs = Reader(l, axes, funcs).parse()
    rd = Reader(r, axes, funcs)
    rd.strict = strict
    terms = rd.terms()
    if rd.peek() is not None:
        raise LatexError(f"trailing {rd.toks[rd.i:]} in {s}")
    return lhs, terms


def to_sympy(ast, env):
    """env: name -> sympy expr of concrete functions of sympy symbols named as the axes."""
    import sympy as sp
    k = ast[0]
    if k == "num":
        return sp.Float(ast[1]) if ast[1] != int(ast[1]) else sp.Integer(int(ast[1]))
    if k == "sym":
        if ast[1] == "e" and "e" not in env:
            return sp.E
        if ast[1] not in env:
            raise LatexError("unknown symbol " + ast[1])
        return env[ast[1]]
    a = [to_sympy(c, env) for c in ast[1:] if isinstance(c, tuple)]
    if k == "add":
        return a[0] + a[1]
    if k == "sub":
        return a[0] - a[1]
    if k == "neg":
        return -a[0]
    if k == "mul":
        return a[0] * a[1]
    if k == "div":
        return a[0] / a[1]
    if k == "pow":
        return a[0] ** a[1]
    if k == "diff":
        return sp.diff(a[0], env["__axis__"][ast[2]], ast[3])
    if k == "lap":
        return sum(sp.diff(a[0], v, 2) for v in env["__axis__"].values())
    if k == "fn":
        f = {"sign": sp.sign, "re": lambda v: v, "im": lambda v: sp.Integer(0), "sin": sp.sin, "cos": sp.cos, "exp": sp.exp, "log": sp.log, "ln": sp.log, "tanh": sp.tanh, "sinh": sp.sinh, "cosh": sp.cosh,
             "sqrt": sp.sqrt, "abs": sp.Abs, "tan": sp.tan}[ast[1]]
        return f(a[0])
    raise LatexError("unknown node " + k)
