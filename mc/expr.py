"""Constant expressions: an independent evaluator and the enumeration of expression texts.

Precedence, from the loosest: + and -, then * and /, then << and >>, then unary minus; binary
operators associate to the left. An expression is out of scope (Undefined) when it divides with a
negative operand or by zero, or shifts by a negative or an absurd amount.
"""
import itertools
import re

TOKEN = re.compile(r"\s*(0x[0-9a-fA-F]+|\d+|[A-Za-z_]\w*|<<|>>|[-+*/()|])")
LEVEL = {"+": 1, "-": 1, "*": 2, "/": 2, "<<": 3, ">>": 3}
OPS = ("+", "-", "*", "/", "<<", ">>")


class Undefined(Exception):
    pass


def tokens(text):
    text = re.sub(r"/\*.*?\*/|//.*?\n", " ", text, flags=re.S)
    out, pos = [], 0
    while text[pos:].strip():
        m = TOKEN.match(text, pos)
        assert m, "not an expression: %r" % text
        out.append(m.group(1))
        pos = m.end()
    return out


def evaluate(text, names):
    toks = tokens(text)
    value, rest = _expr(toks, 0, 1, names)
    assert rest == len(toks), "not an expression: %r" % text
    return value


def _expr(toks, i, level, names):
    left, i = _unary(toks, i, names)
    while i < len(toks) and toks[i] in LEVEL and LEVEL[toks[i]] >= level:
        op = toks[i]
        right, i = _expr(toks, i + 1, LEVEL[op] + 1, names)
        left = apply(op, left, right)
    return left, i


def _unary(toks, i, names):
    t = toks[i]
    if t == "-":
        v, i = _unary(toks, i + 1, names)
        return -v, i
    if t == "(":
        v, i = _expr(toks, i + 1, 1, names)
        assert toks[i] == ")"
        return v, i + 1
    return literal(t, names), i + 1


def literal(t, names):
    if t.startswith("0x"):
        return int(t[2:], 16)
    if t.isdigit():
        return int(t, 8) if t.startswith("0") and len(t) > 1 else int(t)
    return names[t]


def apply(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if a < 0 or b <= 0:
            raise Undefined()
        q = 0
        # long division, so as not to lean on the operators under test
        for bit in range(a.bit_length() - 1, -1, -1):
            if (q | 1 << bit) * b <= a:
                q |= 1 << bit
        return q
    if b < 0 or b > 64:
        raise Undefined()
    return a * 2 ** b if op == "<<" else (a - a % 2 ** b) // 2 ** b


def flat(ops, operands, minus=(), groups=()):
    """Text of a flat expression; minus: operand indices negated, groups: (first, last, negated)."""
    parts = []
    for i, o in enumerate(operands):
        opening = "".join(("-(" if neg else "(") for a, b, neg in groups if a == i)
        closing = ")" * sum(1 for a, b, _ in groups if b == i)
        parts.append(opening + "-" * minus.count(i) + str(o) + closing)
        if i < len(ops):
            parts.append(ops[i])
    return " ".join(parts)


def minuses(n, full):
    yield ()
    for i in range(n):
        yield (i,)
        if full:
            yield (i, i)
    if full:
        for r in range(2, n + 1):
            for s in itertools.combinations(range(n), r):
                yield s


def groupings(n, full):
    """Every single group, and every pair of nested or disjoint groups when full."""
    spans = [(a, b) for a in range(n) for b in range(a, n)]
    for a, b in spans:
        for neg in (False, True):
            yield ((a, b, neg),)
    if full:
        for (a, b), (c, d) in itertools.product(spans, spans):
            if (a, b) != (c, d) and (b < c or (a <= c and d <= b)):
                yield ((a, b, False), (c, d, False))
                yield ((a, b, False), (c, d, True))


OPERANDS = {
    1: [(0,), (1,), (7,), (2147483648,), (4294967295,), (4294967296,), (9223372036854775807,)],
    2: [(7, 2), (2, 7), (1, 1), (0, 3), (13, 4), (255, 8), (1, 31), (6, 3)],
    3: [(13, 5, 2), (1, 2, 3), (96, 3, 4), (2, 9, 1)],
    4: [(13, 5, 2, 3), (100, 7, 1, 2)],
    5: [(99, 5, 3, 2, 1)],
}

LITERALS = ["0", "1", "9", "10", "00", "07", "010", "0777", "037777777777", "0x0", "0x1F", "0xff", "0xAbC", "0x7fffffff",
            "0xFFFFFFFF", "0x100000000", "65535", "2147483647", "4294967295", "9007199254740993", "0xfffffffffffff"]


def shapes(thorough):
    for n in (1, 2, 3):
        for ops in itertools.product(OPS, repeat=n - 1):
            for operands in OPERANDS[n]:
                for m in minuses(n, n < 3 or thorough):
                    yield flat(ops, operands, m)
                for g in groupings(n, n < 3 or thorough):
                    yield flat(ops, operands, (), g)
    for ops in itertools.product(OPS, repeat=3):
        for operands in OPERANDS[4]:
            for m in minuses(4, thorough):
                yield flat(ops, operands, m)
            for g in groupings(4, thorough):
                yield flat(ops, operands, (), g)
    if thorough:
        for ops in itertools.product(OPS, repeat=4):
            for operands in OPERANDS[5]:
                for m in minuses(5, False):
                    yield flat(ops, operands, m)
                for g in groupings(5, False):
                    yield flat(ops, operands, (), g)


def literals():
    for a in LITERALS:
        yield a
        yield "-" + a
        yield "(" + a + ")"
        for op in OPS:
            yield "%s %s 3" % (a, op)
            yield "1000 %s %s" % (op, a)
            yield "%s%s%s" % (a, op, a)


def named(names):
    for a in names:
        yield a
        yield "-" + a
        yield "(" + a + ")"
        for op in OPS:
            for b in list(names) + ["3"]:
                yield "%s %s %s" % (a, op, b)
                yield "2 %s (%s - %s)" % (op, a, b)
                for op2 in OPS:
                    yield "%s %s %s %s 2" % (a, op, b, op2)


def spacing():
    for a, op, b in itertools.product(("7", "-7", "(7)", "0x7"), OPS, ("2", "- 2", "-2", "--2", "(2)", "( -2 )")):
        yield a + op + b
        yield "%s  %s\t%s" % (a, op, b)
        yield "%s\n%s\n%s" % (a, op, b)


def comments():
    for op in OPS:
        yield "7 /* 1 + */ %s 2" % op
        yield "7 %s // 9\n 2" % op


def texts(names, thorough, octal=True, comment=True):
    """Distinct in-scope expressions with their values, simplest first."""
    seen = set()
    gens = [literals(), spacing(), named(names), shapes(thorough)]
    if comment:
        gens.insert(2, comments())
    for text in itertools.chain(*gens):
        if text in seen:
            continue
        seen.add(text)
        if not octal and any(re.match(r"0\d", t) for t in tokens(text)):
            continue
        try:
            yield text, evaluate(text, names)
        except Undefined:
            pass
