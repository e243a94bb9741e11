"""C13: prophyc always terminates, with its outputs or with a designed diagnostic."""
import copy
import itertools
import os
import re
import subprocess
import sys
import xml.etree.ElementTree as ElementTree

from .. import core, frontend, pyside

OUTS = (("python", [".py"]), ("cpp", [".pp.hpp", ".pp.cpp"]), ("cpp_full", [".ppf.hpp", ".ppf.cpp"]), ("prophy", [".prophy"]))


class Run(object):
    """One run of prophyc: files to write (name -> text or bytes), arguments, and what the input is.

    text: the input under test is schema text of main.prophy, so diagnostics must carry a location.
    """

    def __init__(self, name, files, args, inputs=("main",), text=False, outs="python cpp cpp_full", dirs=(), cwd=None):
        self.name, self.files, self.args, self.inputs, self.text = name, files, args, inputs, text
        self.outs, self.dirs, self.cwd = outs.split(), dirs, cwd


def prepare(run, directory):
    for d in run.dirs:
        os.makedirs(os.path.join(directory, d))
    for name, content in run.files.items():
        path = os.path.join(directory, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode("utf-8", "surrogatepass"))


def arguments(run, directory):
    out = []
    for o in run.outs:
        out += ["--%s_out" % o, os.path.join(directory, "out")]
    for a in run.args:
        out.append(a.replace("@", directory + os.sep) if a.startswith("@") else a)
    return out


def execute(run):
    with core.Scratch() as d:
        os.mkdir(os.path.join(d, "out"))
        prepare(run, d)
        outcome = frontend.call(arguments(run, d), cwd=os.path.join(d, run.cwd) if run.cwd else None)
        missing = []
        if outcome.kind == "ok" and run.inputs:
            for o, exts in OUTS:
                if o in run.outs:
                    for base in run.inputs:
                        missing += [base + e for e in exts if not os.path.isfile(os.path.join(d, "out", base + e))]
        outcome.message = outcome.message.replace(d + os.sep, "")
        return outcome, missing


def problem(run, outcome, missing):
    if outcome.kind in ("internal", "hang"):
        return "%s: %s" % (outcome.kind, outcome.message[:400])
    if outcome.kind == "error" and "recursion" in outcome.message and "/chain" not in run.name:
        return "ends by exhausting the stack: %s" % outcome.message[:300]
    if missing:
        return "prophyc succeeds without writing %s" % " ".join(missing)
    if outcome.kind == "error" and run.text and misplaced(run, outcome):
        return misplaced(run, outcome)
    if run.name.endswith("/base") and outcome.kind != "ok":
        return "a valid input is refused: %s" % outcome.message[:300]
    if outcome.kind == "error" and run.text and not outcome.located and outcome.cause != "GenerateError":
        return "diagnostic without file:line:column: %r" % outcome.message[:300]


def misplaced(run, outcome):
    """A located diagnostic has to point into the file it names."""
    for line in outcome.message.split("\n"):
        m = re.match(r"^(?:prophyc: error: )?(.+?):(\d+):(\d+): error: ", line)
        if m:
            content = run.files.get(m.group(1))
            if isinstance(content, bytes):
                content = content.decode("utf-8", "replace")
            if content is None:
                return "diagnostic names a file that was not given: %r" % line[:300]
            lines = content.split("\n")
            n, column = int(m.group(2)), int(m.group(3))
            if not 1 <= n <= len(lines) or not 0 <= column <= max(map(len, lines)) + 1:
                return "diagnostic points outside of the file: %r" % line[:300]


def signature(outcome):
    """Groups outcomes: names and numbers do not matter."""
    text = outcome.message.split("\n")[0]
    text = re.sub(r"'.*'", "'*'", text)
    text = re.sub(r"\d+", "0", text)
    return "%s %s" % (outcome.kind, re.sub(r"^\S*main\S*:0:0", "main:0:0", text)[:90])


def work(runs):
    res = core.Result()
    undo = frontend.pool_parsers()
    seen = set()
    for run in runs:
        res.states += 1
        res.transitions += 1
        res.traces += 1
        outcome, missing = execute(run)
        if problem(run, outcome, missing):
            undo()
            outcome, missing = execute(run)
            undo = frontend.pool_parsers()
        res.outcomes[signature(outcome)] += 1
        res.extra["runs ending with " + outcome.kind] += 1
        p = problem(run, outcome, missing)
        if p:
            key = "%s:%s" % (run.name.split("/")[0], re.sub(r"'.*?'|\d+", "*", p)[:100])
            if key not in seen:
                seen.add(key)
                res.violation(key, "%s\n%s" % (p, show(run)), case=run.name, input=show(run))
            if outcome.kind == "hang" and len(seen) > 3:
                break
    undo()
    return res


def show(run):
    parts = ["prophyc " + " ".join(["--%s_out out" % o for o in run.outs] + list(run.args))]
    for n, c in run.files.items():
        parts.append("--- %s\n%s" % (n, c if isinstance(c, str) else repr(c)))
    return "\n".join(parts)[:3000]


# --- prophy text

BASES = [
    """const A = 2;
enum E { E_1 = 1, E_2 = A + 0x2 };
typedef u16 T;
struct S { T a; E b[A]; u8 * c; bytes d<3>; };
union U { 1: u8 a; E_2: S b; };
struct D { u8 n; u32 x<@n>; S y<>; i64 z<...>; };
""",
    """#include "other.prophy"
struct X { OT a; OS b[OC]; float c<OE_1>; };
""",
]
OTHER = "const OC = 3;\nenum OE { OE_1 = 4 };\ntypedef i8 OT;\nstruct OS { OE e; double f; };\n"
LEXEME = re.compile(r'"[^"]*"|0x\w+|\w+|<<|>>|\.\.\.|\S')
ALPHABET = ["const", "enum", "typedef", "struct", "union", "u8", "u64", "i16", "float", "double", "bytes", "A", "E", "E_1", "T",
            "S", "D", "U", "new", "0", "1", "010", "0x1", "99999999999999999999", "=", ";", ":", ",", "{", "}", "[", "]", "<", ">",
            "@", "...", "<<", ">>", "+", "-", "*", "/", "(", ")", "#", "include", '"other.prophy"', '"none"', '""', '"', "/*", "*/",
            "//", "\n", "$", "é", "\0", "'", "\\", "2.5", "_x"]
CHARS = ["", "\0", '"', "#", "é", "\n", "\t", "0", "x", "-", "<", "(", "}", ";", "/", "*", " "]


def prophy_run(name, text, outs="python cpp cpp_full"):
    return Run(name, {"main.prophy": text, "other.prophy": OTHER}, ["@main.prophy"], text=True, outs=outs)


def token_edits(thorough):
    for b, base in enumerate(BASES):
        yield prophy_run("token%d/base" % b, base)
        spans = [m.span() for m in LEXEME.finditer(base)]
        for i, (s, e) in enumerate(spans):
            yield prophy_run("token/%d-%d-del" % (b, i), base[:s] + base[e:])
            yield prophy_run("token/%d-%d-dup" % (b, i), base[:e] + " " + base[s:])
            yield prophy_run("token/%d-%d-cut" % (b, i), base[:s])
            yield prophy_run("token/%d-%d-tail" % (b, i), base[s:])
            if i + 1 < len(spans):
                s2, e2 = spans[i + 1]
                yield prophy_run("token/%d-%d-swap" % (b, i), base[:s] + base[s2:e2] + base[e:s2] + base[s:e] + base[e2:])
                for j in range(i + 2, min(len(spans), i + (8 if thorough else 4))):
                    yield prophy_run("token/%d-%d-del%d" % (b, i, j), base[:s] + base[spans[j][0]:])
            for k, t in enumerate(ALPHABET):
                yield prophy_run("token/%d-%d-rep%d" % (b, i, k), base[:s] + t + base[e:])
                if thorough or i % 2 == 0:
                    yield prophy_run("token/%d-%d-ins%d" % (b, i, k), base[:s] + " " + t + " " + base[s:])


def char_edits(thorough):
    for b, base in enumerate(BASES):
        step = 1 if thorough else 2
        for i in range(0, len(base), step):
            for k, ch in enumerate(CHARS):
                if thorough or (i + k) % 3 == 0:
                    yield prophy_run("char/%d-%d-%d" % (b, i, k), base[:i] + ch + base[i + 1:])
            yield prophy_run("char/%d-%d-cut" % (b, i), base[:i])


def short_texts(thorough):
    yield prophy_run("short/empty", "")
    for n in (1, 2) + ((3,) if thorough else ()):
        alphabet = ALPHABET if n < 3 else ALPHABET[::2]
        for combo in itertools.product(range(len(alphabet)), repeat=n):
            yield prophy_run("short/" + "-".join(map(str, combo)), " ".join(alphabet[c] for c in combo), outs="python")


EXPR = ["1", "0", "A", "none", "+", "-", "*", "/", "<<", ">>", "(", ")", "99", "E_1", "0x", "1.5", "S"]
HUGE = ["1 << 64", "1 << 99999999999", "1 << 100000", "(1 << 63) * (1 << 63)", "1 >> 99999999999", "1 << -1", "1 >> -1", "0 - 1 << 3",
        "1 / 0", "1 / (A - A)", "-7 / 2", "7 / -2", "9" * 100, "9" * 5000, "0x" + "f" * 5000, "0" + "7" * 6000, "1" + " + 1" * 3000,
        "(" * 2000 + "1" + ")" * 2000, "-" * 3000 + "1", "1" + " * 99999999" * 1000, "1" + " << 60" * 100, "(1 << 64) >> 64",
        "(1 << 200) / (1 << 199)"]
PLACES = {
    "const": "const X = %s;", "enumerator": "enum X { X_1 = %s };", "second": "enum X { X_1 = 1, X_2 = %s };",
    "array": "struct X { u8 a[%s]; };", "limit": "struct X { u8 a<%s>; };", "bytes": "struct X { bytes a[%s]; };",
    "disc": "union X { %s: u8 a; };", "disc2": "union X { 1: u8 a; %s: u8 b; };"}
HEAD = "const A = 2;\nenum E { E_1 = 1 };\nstruct S { u8 a; };\n"


def expressions(thorough):
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        for combo in itertools.product(EXPR, repeat=n):
            text = " ".join(combo)
            for place in ("const", "array", "disc2") if n < 3 else ("array",):
                yield prophy_run("expr/%s %s" % (place, text), HEAD + PLACES[place] % text + "\n", outs="python")
    for i, text in enumerate(HUGE):
        for place in sorted(PLACES):
            yield prophy_run("expr/%s huge%d" % (place, i), HEAD + PLACES[place] % text + "\n")
    chain = "const C0 = 1 << 60;\n" + "".join("const C%d = C%d * C%d;\n" % (i + 1, i, i) for i in range(60))
    yield prophy_run("expr/squares", chain)
    chain = "const C0 = 2;\n" + "".join("const C%d = C%d << C%d;\n" % (i + 1, i, i) for i in range(60))
    yield prophy_run("expr/shifts", chain)


def pairs(values, n):
    return itertools.product(values, repeat=n)


DECLS = ["const N = 1;", "enum N { N_a = 1 };", "enum M { N = 1 };", "typedef u8 N;", "struct N { u8 a; };", "union N { 1: u8 a; };",
         "struct Q { N a; };", "struct Q { u8 a[N]; };", "union R { N: u8 a; };", "typedef N P;", "typedef N N;", "struct N { N a; };",
         "union N { 1: N a; };", "enum N { N = 1 };", "enum N { N_a = 1, N_a = 2 };", "enum N { N_a = 1, N_b = 1 };",
         "union N { 1: u8 a; 1: u8 b; };", "union N { 1: u8 a; 2: u8 a; };", "struct N { u8 a; u8 a; };", "const N = N;",
         "struct N { u8 a<@a>; };", "struct N { u8 a<>; u8 num_of_a; };", "struct N { };", "union N { };", "enum N { };",
         "enum N { N_a = 4294967296 };", "enum N { N_a = -1 };", "union N { -1: u8 a; };", "union N { 4294967296: u8 a; };",
         "struct N { u8 a<...>; u8 b; };", "struct N { u8 a<...>; u8 b<...>; };", "struct N { u8 * a<>; };", "struct N { bytes a; };"]


def declarations(thorough):
    for a in DECLS:
        yield prophy_run("decl/" + a, a + "\n")
    for a, b in pairs(DECLS, 2):
        yield prophy_run("decl/%s %s" % (a, b), a + "\n" + b + "\n", outs="python" if not thorough else "python cpp cpp_full")


# --- the place a diagnostic names does not depend on white space and comments

LAYOUTS = [lambda i: " ", lambda i: "\n" + " " * (i % 3), lambda i: (" // x\n", "  ", " /* a\n b */ ", "\t\n")[i % 4]]


def laid_out(tokens, separator):
    """Text, and which token starts where."""
    text, starts = "", []
    for i, t in enumerate(tokens):
        starts.append(len(text))
        text += t + separator(i)
    return text, starts


def token_at(text, starts, tokens, line, column):
    lines = text.split("\n")
    if not 1 <= line <= len(lines):
        return "outside"
    at = sum(len(x) + 1 for x in lines[:line - 1]) + column - 1
    for i, s in enumerate(starts):
        if s <= at < s + len(tokens[i]):
            return i, at - s
    return "end" if starts and at >= starts[-1] + len(tokens[-1]) - 1 else "between tokens"


def places(run, tokens, layout):
    """What prophyc says about the tokens in that layout, places given as tokens."""
    text, starts = laid_out(tokens, LAYOUTS[layout])
    run = copy.copy(run)
    name = "other.prophy" if run.name.startswith("place/included") else "main.prophy"
    run.files = dict(run.files)
    run.files[name] = text
    outcome, _ = execute(run)
    if outcome.kind != "error":
        return outcome.kind, run, outcome.message
    out = []
    for line in outcome.message.split("\n"):
        m = re.match(r"^(?:prophyc: error: )?(.+?):(\d+):(\d+): (.*)", line)
        if not m:
            out.append(line)
        elif m.group(4).startswith("error: Duplicated"):
            out.append(m.group(4))   # the model's own complaint, placed where the parser has got to
        else:
            at = token_at(text, starts, tokens, int(m.group(2)), int(m.group(3))) if m.group(1) == name else m.groups()[:3]
            out.append((at if "end of input" not in line or at == "outside" else "end", m.group(1), m.group(4)))
    return out, run, outcome.message


def place_problem(run, tokens):
    first = places(run, tokens, 0)
    for layout in range(1, len(LAYOUTS)):
        other = places(run, tokens, layout)
        if other[0] != first[0]:
            return "the same words with other white space and comments are diagnosed at another place:\n%s\n%s\n%s\n%s" % (
                first[2][:500], show(first[1]), other[2][:500], show(other[1]))


def work_places(runs):
    res = core.Result()
    undo = frontend.pool_parsers()
    for run in runs:
        tokens = LEXEME.findall(run.layout)
        res.states += 1
        res.transitions += len(LAYOUTS)
        res.traces += len(LAYOUTS)
        p = place_problem(run, tokens)
        if p:
            undo()
            p = place_problem(run, tokens)
            undo = frontend.pool_parsers()
        if p:
            res.violation("place:" + re.sub(r"\W+", " ", run.name)[:60], p, case=run.name, input=run.layout)
            break
    undo()
    return res


def placed(thorough):
    """Erroneous texts for the comparison of layouts; in the given file and in the second of two included ones."""
    source = itertools.chain(itertools.islice(token_edits(False), 0, None, 3 if thorough else 14), declarations(False),
                             itertools.islice(expressions(False), 0, None, 1 if thorough else 3))
    for i, r in enumerate(source):
        text = r.files["main.prophy"]
        tokens = LEXEME.findall(text)
        if len(text) > 2000 or set(tokens) & {"/", "/*", "*/", "//", "#"}:
            continue
        run = Run("place/" + r.name, {"other.prophy": OTHER}, ["@main.prophy"], text=True, outs="python")
        run.layout = text
        yield run
        if i % 4 == 0:
            run = Run("place/included/" + r.name, {"first.prophy": "// one\n\nconst First = 1;\n\n",
                                                   "main.prophy": '#include "first.prophy"\n#include "other.prophy"\n'},
                      ["@main.prophy"], text=True, outs="python")
            run.layout = text
            yield run


# --- includes

def includes():
    def run(name, files, args=("@main.prophy",), **kw):
        kw.setdefault("text", True)
        kw.setdefault("outs", "python cpp cpp_full")
        return Run("include/" + name, files, list(args), **kw)

    yield run("self", {"main.prophy": '#include "main.prophy"\nstruct A { u8 a; };\n'})
    yield run("two", {"main.prophy": '#include "b.prophy"\n', "b.prophy": '#include "main.prophy"\n'})
    yield run("three", {"main.prophy": '#include "b.prophy"\n', "b.prophy": '#include "c.prophy"\n', "c.prophy": '#include "b.prophy"\n'})
    yield run("missing", {"main.prophy": '#include "none.prophy"\n'})
    yield run("missing deeper", {"main.prophy": '#include "b.prophy"\n', "b.prophy": '#include "none.prophy"\n'})
    for i, p in enumerate(['', '.', '..', '/', 'dir', 'dir/', './dir', '//', 'a\\b', '"', 'none/none', 'x' * 300, 'x/' * 3000 + 'x', 'é',
                           '*', '~', '%s', '{}', 'main.prophy/x', 'dir/../main.prophy', '\t', ' ']):
        yield run("path%d" % i, {"main.prophy": '#include "%s"\nstruct A { u8 a; };\n' % p, "dir/x": ""})
    yield run("nul", {"main.prophy": '#include "a\0b"\n'})
    yield run("no path", {"main.prophy": '#include\nstruct A { u8 a; };\n'})
    yield run("twice", {"main.prophy": '#include "b.prophy"\n#include "b.prophy"\nstruct A { B a; };\n', "b.prophy": "typedef u8 B;\n"})
    yield run("two on a line", {"main.prophy": '#include "b.prophy" #include "c.prophy"\nstruct A { B a; C c; };\n',
                                "b.prophy": "typedef u8 B;\n", "c.prophy": "typedef u8 C;\n"})
    yield run("errors inside", {"main.prophy": '#include "b.prophy"\nstruct A { B a; };\n', "b.prophy": "struct { ;\n"})
    yield run("same names", {"main.prophy": '#include "b.prophy"\nstruct B { u8 a; };\n', "b.prophy": "typedef u8 B;\n"})
    yield run("same names in two", {"main.prophy": '#include "b.prophy"\n#include "c.prophy"\nstruct A { B a; };\n',
                                    "b.prophy": "typedef u8 B;\n", "c.prophy": "typedef u8 B;\n"})
    for n in (20, 60, 200, 1500):
        files = {"main.prophy": '#include "f0.prophy"\nstruct A { T0 a; };\n'}
        for i in range(n):
            files["f%d.prophy" % i] = '%stypedef u8 T%d;\n' % ('#include "f%d.prophy"\n' % (i + 1) if i + 1 < n else "", i)
        yield run("chain%d" % n, files)
    yield run("not utf-8", {"main.prophy": b"// \xff\xfe\nstruct A { u8 a; };\n"}, text=False)
    yield run("included not utf-8", {"main.prophy": '#include "b.prophy"\n', "b.prophy": b"\xff"}, text=False)
    yield run("bom", {"main.prophy": b"\xef\xbb\xbfstruct A { u8 a; };\n"})
    yield run("utf-16", {"main.prophy": "struct A { u8 a; };\n".encode("utf-16")}, text=False)
    yield run("crlf", {"main.prophy": "struct A {\r\n u8 a; // x\r\n};\r\n"})
    yield run("no newline", {"main.prophy": "struct A { u8 a; }; // the end"})
    yield run("only a comment", {"main.prophy": "// the end"})
    yield run("open comment", {"main.prophy": "struct A { u8 a; }; /* the end"})
    yield run("two failing files", {"main.prophy": "struct {", "b.prophy": "struct {"}, ["@main.prophy", "@b.prophy"])
    yield run("main includes the other", {"main.prophy": '#include "b.prophy"\n', "b.prophy": "typedef u8 B;\n"},
              ["@b.prophy", "@main.prophy"], inputs=("main", "b"))
    yield run("same file twice", {"main.prophy": "typedef u8 B;\n"}, ["@main.prophy", "@main.prophy"])
    yield run("long typedef chain", {"main.prophy": "typedef u8 T0;\n" + "".join(
        "typedef T%d T%d;\n" % (i, i + 1) for i in range(1500)) + "struct A { T1500 a; };\n"})
    yield run("deep nesting", {"main.prophy": "struct T0 { u8 a; };\n" + "".join(
        "struct T%d { T%d a; };\n" % (i + 1, i) for i in range(400))})
    yield run("deep dynamic nesting", {"main.prophy": "struct T0 { u8 a<>; };\n" + "".join(
        "struct T%d { T%d a; };\n" % (i + 1, i) for i in range(400))})
    yield run("many errors", {"main.prophy": "} ; ] \n" * 500})
    yield run("many fields", {"main.prophy": "struct A {\n" + "".join("u8 a%d;\n" % i for i in range(2000)) + "};\n"})
    yield run("sizes", {"main.prophy": "struct A { u64 a[4294967295]; };\nstruct B { A a[4294967295]; };\nstruct C { B a[99999999999]; };\n"})


# --- isar

ISAR = """<x xmlns:xi="http://www.w3.org/2001/XInclude">
<xi:include href="other.xml"/>
<constant name="A" value="2"/>
<constant name="B" value="shiftLeft(A, 1)"/>
<typedef name="T" type="u16"/>
<typedef name="P" primitiveType="32 bit integer unsigned"/>
<enum name="E"><enum-member name="E_1" value="1"/><enum-member name="E_2" value="bitMaskOr(A, 4)"/><enum-member name="E_3" value="-1"/></enum>
<struct name="S"><member name="a" type="T"/><member name="b" type="E"><dimension size="A"/></member>
<member name="c" type="u8" optional="true"/><member name="d" type="u8"><dimension isVariableSize="true" size="3"/></member></struct>
<union name="U"><member name="a" type="u8" discriminatorValue="1"/><member name="b" type="S" discriminatorValue="E_2"/></union>
<message name="M"><member name="n" type="u32"/><member name="x" type="S"><dimension isVariableSize="true" variableSizeFieldName="@n"/></member>
<member name="y" type="OT"><dimension size="OC" size2="2"/></member>
<member name="z" type="u8"><dimension isVariableSize="true" variableSizeFieldName="k" variableSizeFieldType="u16"/></member>
<member name="numOfW" type="u32"/><member name="w" type="u8"><dimension size="THIS_IS_VARIABLE_SIZE_ARRAY"/></member></message>
</x>
"""
ISAR_OTHER = '<x><constant name="OC" value="3"/><typedef name="OT" type="i8"/></x>'
ATTRIBUTES = ["", " ", "x y", "0", "1", "-1", "99999999999999999999", "0x", "A", "B", "E", "E_1", "S", "M", "U", "T", "none", "A+", "(", ")",
              "1/0", "1<<-1", "1<<99999999999", "1.5", "010", "0x10", "A*A", "shiftLeft(", "shiftLeft(1", "shiftLeft(1)", "shiftLeft(1,2",
              "bitMaskOr(1,)", "shiftLeft()", "@", "@n", "@none", "u8", "byte", "8 bit integer unsigned", "true", "TRUE", "false", "é", "'",
              "\n", "THIS_IS_VARIABLE_SIZE_ARRAY", "&", "other.xml", "main.xml", "1_0", "1|2", "A&B", "9" * 5000, "class", "a", "__", "None"]
TAGS = ["constant", "typedef", "enum", "struct", "union", "message", "member", "dimension", "enum-member", "include", "x", "other"]


def isar_run(name, text, **kw):
    files = {"main.xml": text, "other.xml": ISAR_OTHER}
    files.update(kw.pop("files", {}))
    kw.setdefault("outs", "python cpp cpp_full prophy")
    return Run(name, files, ["--isar"] + kw.pop("extra", []) + ["@main.xml"], **kw)


def walk(elem, path=()):
    yield path, elem
    for i, child in enumerate(elem):
        for x in walk(child, path + (i,)):
            yield x


def at(root, path):
    for i in path:
        root = root[i]
    return root


def isar_edits(thorough):
    root = ElementTree.fromstring(ISAR)
    yield isar_run("isar/base", ISAR)

    def variant(name, path, change):
        new = copy.deepcopy(root)
        if change(new, at(new, path)) is False:
            return None
        return isar_run("isar/" + name, ElementTree.tostring(new, encoding="unicode"))

    def out(run):
        return [run] if run else []

    for path, elem in walk(root):
        label = "%s-%s" % ("".join(map(str, path)), elem.tag.split("}")[-1])
        for attr in list(elem.attrib) + [a for a in ("name", "type", "value", "size", "optional", "isVariableSize", "href") if a not in elem.attrib]:
            if attr in elem.attrib:
                def drop(_, e, attr=attr):
                    del e.attrib[attr]
                for r in out(variant("%s no %s" % (label, attr), path, drop)):
                    yield r
            for v in ATTRIBUTES:
                def put(_, e, attr=attr, v=v):
                    e.set(attr, v)
                for r in out(variant("%s %s=%s" % (label, attr, v[:20]), path, put)):
                    yield r
        for tag in TAGS:
            def retag(_, e, tag=tag):
                e.tag = tag
            for r in out(variant("%s as %s" % (label, tag), path, retag)):
                yield r
            def nest(_, e, tag=tag):
                e.append(ElementTree.Element(tag))
            for r in out(variant("%s with %s" % (label, tag), path, nest)):
                yield r
        if path:
            def parent_of(new):
                return at(new, path[:-1])

            def remove(new, e):
                parent_of(new).remove(e)

            def twice(new, e):
                parent_of(new).append(copy.deepcopy(e))

            def first(new, e):
                p = parent_of(new)
                p.remove(e)
                p.insert(0, e)

            def empty(new, e):
                for child in list(e):
                    e.remove(child)

            def inside(new, e):
                e.append(copy.deepcopy(e))
            for label2, change in (("removed", remove), ("twice", twice), ("first", first), ("emptied", empty), ("in itself", inside)):
                for r in out(variant("%s %s" % (label, label2), path, change)):
                    yield r
    for i in range(0, len(ISAR), 1 if thorough else 5):
        yield isar_run("isar/cut%d" % i, ISAR[:i])
        yield isar_run("isar/gap%d" % i, ISAR[:i] + ISAR[i + 1:])
        yield isar_run("isar/odd%d" % i, ISAR[:i] + "<" + ISAR[i:])


def isar_texts():
    for i, t in enumerate(["", " ", "x", "<", "<x>", "<x/>", "</x>", "<x></y>", "<x>&none;</x>", "<x>\0</x>", "<?xml version='1.0'?>",
                           "<?xml version='1.0' encoding='utf-16'?><x/>", "<?xml version='1.0' encoding='none'?><x/>", "<x a='1' a='2'/>",
                           "<!-- --><x/>", "<x/><x/>", "struct A { u8 a; };", "<x><struct/></x>", "<x><struct name='A'><member/></struct></x>",
                           "<x><struct name='A'><member name='a'/></struct></x>", "<x><struct name='A'><member type='u8'/></struct></x>",
                           "<x><enum/></x>", "<x><constant/></x>", "<x><typedef/></x>", "<x><typedef name='A'/></x>", "<x><include href=''/></x>",
                           "<x><include/></x>", "<x><thing href='other.xml'/></x>", "<x><include href='dir'/></x>", "<x><include href='none'/></x>",
                           "<x><union name='U'><member name='a' type='u8'/></union></x>", "<struct name='A'><member name='a' type='u8'/></struct>"]):
        yield isar_run("xml/%d" % i, t, dirs=("dir",))
    yield isar_run("xml/bytes", b"\xff\xfe<x/>")
    yield isar_run("xml/self", "<x><include href='main.xml'/></x>")
    yield isar_run("xml/mutual", "<x><include href='b.xml'/></x>", files={"b.xml": "<x><include href='main.xml'/></x>"})
    yield isar_run("xml/deep", "<x>" * 3000 + "</x>" * 3000)
    for n in (60, 200):
        files = {"f%d.xml" % i: "<x>%s<typedef name='T%d' type='u8'/></x>" % (
            "<include href='f%d.xml'/>" % (i + 1) if i + 1 < n else "", i) for i in range(n)}
        yield isar_run("xml/chain%d" % n, "<x><include href='f0.xml'/></x>", files=files)
    chain = "".join("<typedef name='T%d' type='T%d'/>" % (i, i + 1) for i in range(600)) + "<typedef name='T600' type='u8'/>"
    yield isar_run("xml/typedef chain", "<x>%s<struct name='S'><member name='a' type='T0'/></struct></x>" % chain)
    chain = "".join("<constant name='T%d' value='T%d'/>" % (i, i + 1) for i in range(600)) + "<constant name='T600' value='3'/>"
    yield isar_run("xml/constant chain", "<x>%s<struct name='S'><member name='a' type='u8'><dimension size='T0'/></member></struct></x>" % chain)


def isar_expressions(thorough):
    body = ("<x><constant name='A' value='2'/><enum name='E'><enum-member name='E_1' value='1'/></enum>"
            "<struct name='S'><member name='a' type='u8'/></struct>%s</x>")
    places = ["<constant name='X' value='%s'/>", "<enum name='X'><enum-member name='X_1' value='%s'/></enum>",
              "<struct name='X'><member name='a' type='u8'><dimension size='%s'/></member></struct>",
              "<union name='X'><member name='a' type='u8' discriminatorValue='%s'/></union>"]

    def escape(s):
        return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("'", "&apos;")
    for n in (1, 2, 3) + ((4,) if thorough else ()):
        for combo in itertools.product(EXPR + ["|"], repeat=n):
            text = " ".join(combo)
            for k, place in enumerate(places if n < 3 else places[2:3]):
                yield isar_run("isarexpr/%d %s" % (k, text), body % (place % escape(text)), outs="python")
    for i, text in enumerate(HUGE):
        for k, place in enumerate(places):
            yield isar_run("isarexpr/%d huge%d" % (k, i), body % (place % escape(text)))
    for text in ("X", "Y", "X + 1", "X_1", "S", "X | X"):
        for k, place in enumerate(places):
            yield isar_run("isarexpr/%d own %s" % (k, text), body % (place % escape(text) + "<constant name='Y' value='X'/>"))


def cycles(thorough):
    """Every directed graph on up to three definitions, including self loops, for every kind of definition."""
    forms = {
        "T": lambda n, d: "<typedef name='%s' type='%s'/>" % (n, d[0] if d else "u8"),
        "S": lambda n, d: "<struct name='%s'><member name='z' type='u8'/>%s</struct>" % (n, "".join(
            "<member name='m%d' type='%s'/>" % (i, x) for i, x in enumerate(d))),
        "U": lambda n, d: "<union name='%s'><member name='z' type='u8' discriminatorValue='0'/>%s</union>" % (n, "".join(
            "<member name='m%d' type='%s' discriminatorValue='%d'/>" % (i, x, i + 1) for i, x in enumerate(d))),
        "K": lambda n, d: "<constant name='%s' value='%s'/>" % (n, " + ".join(["1"] + list(d))),
        "E": lambda n, d: "<enum name='E%s'><enum-member name='%s' value='%s'/></enum>" % (n, n, " + ".join(["1"] + list(d))),
    }
    for n in (1, 2, 3):
        kindsets = itertools.product("TSUKE", repeat=n)
        for kinds in kindsets:
            if n == 3 and not thorough and len(set(kinds)) == 3 and "K" not in kinds:
                continue
            names = ["N%d" % i for i in range(n)]
            for mask in range(1 << (n * n)):
                deps = [[names[j] for j in range(n) if mask >> (i * n + j) & 1] for i in range(n)]
                if any(k == "T" and len(d) > 1 for k, d in zip(kinds, deps)):
                    continue
                if n == 3 and not thorough and mask % 5:
                    continue
                text = "<x>%s</x>" % "".join(forms[k](m, d) for k, m, d in zip(kinds, names, deps))
                yield isar_run("cycle/%s-%d" % ("".join(kinds), mask), text, outs="python cpp")


def files_cycles():
    """Definitions that refer to each other across files; names are found where nothing should be."""
    forms = {"T": "<typedef name='%s' type='%s'/>", "S": "<struct name='%s'><member name='a' type='%s'/></struct>",
             "K": "<constant name='%s' value='%s'/>", "E": "<enum name='E%s'><enum-member name='%s' value='%s'/></enum>",
             "D": "<struct name='S%s'><member name='a' type='u8'><dimension size='%s'/></member></struct>",
             "U": "<union name='%s'><member name='a' type='%s' discriminatorValue='0'/></union>"}

    def form(kind, name, dep):
        return forms[kind] % ((name, name, dep) if kind == "E" else (name, dep))
    for a, b, c in itertools.product(sorted(forms), repeat=3):
        yield isar_run("files/%s%s%s" % (a, b, c), "<x><include href='b.xml'/>%s%s</x>" % (form(a, "N", "M"), form(c, "Q", "N")),
                       files={"b.xml": "<x>%s</x>" % form(b, "M", "N")}, inputs=("main",))
        yield isar_run("files/%s%s%s again" % (a, b, c), "<x><include href='b.xml'/>%s%s</x>" % (form(a, "M", "M"), form(c, "Q", "M")),
                       files={"b.xml": "<x>%s</x>" % form(b, "M", "N")}, inputs=("main",))
        yield isar_run("files/%s%s%s twice" % (a, b, c), "<x>%s%s%s</x>" % (form(a, "N", "u8"), form(b, "N", "N"), form(c, "Q", "N")))


# --- patches

PATCH_BASE = HEAD + "union U { 1: u8 a; 2: S b; };\nstruct M { u32 n; u8 x[4]; S y<>; u16 o*; };\n".replace("u16 o*", "u16 * o")
RULES = ["type", "insert", "remove", "dynamic", "greedy", "static", "limited", "struct", "rename", "none", ""]
WORDS = ["x", "n", "y", "o", "none", "0", "1", "-1", "999", "u8", "M", "S", "A"]


def patch_run(name, patch, base=PATCH_BASE, isar=False, outs="python cpp cpp_full prophy"):
    if isar:
        return Run(name, {"main.xml": base, "other.xml": ISAR_OTHER, "patch": patch}, ["--isar", "--patch", "@patch", "@main.xml"], outs=outs)
    return Run(name, {"main.prophy": base, "patch": patch}, ["--patch", "@patch", "@main.prophy"], outs=outs)


def patches(thorough):
    yield patch_run("patch/base", "M type n u16\nU rename V\nM limited x n\n")
    for target in ("M", "U", "E", "A", "S", "none"):
        for rule in RULES:
            for n in (0, 1, 2, 3) + ((4,) if thorough else ()):
                if n == 3 and rule != "insert" and target != "M":
                    continue
                words = WORDS if n < 3 else ["x", "1", "999", "none", "u8"]
                if n == 4:
                    words = ["x", "1"]
                for params in itertools.product(words, repeat=n):
                    text = " ".join([target, rule] + list(params))
                    yield patch_run("patch/" + text, text + "\n", outs="python cpp_full")
    two = ["M type x S", "M type x M", "M insert 0 x u8", "M insert 999 q none", "M remove n", "M remove x", "M dynamic x n", "M dynamic x none",
           "M dynamic n n", "M greedy x", "M greedy o", "M static x 0", "M static n -1", "M static x A", "M static o E_1", "M limited x n",
           "M limited n x", "M limited y n", "M rename n x", "M rename x y", "M rename S", "M rename R", "U struct", "U rename a b", "S rename Q",
           "E rename F", "A rename B", "S type a M", "S type a U", "S greedy a", "S dynamic a a", "U type a S"]
    for a, b in itertools.product(two, repeat=2):
        yield patch_run("patch/%s; %s" % (a, b), a + "\n" + b + "\n", outs="python cpp_full" if not thorough else "python cpp cpp_full prophy")
    for i, text in enumerate(["", "\n\n", "M", "M\n", "M type", " M type x u8 \r\n", "\t", "M rename é", "M rename x é", "# comment", "M\ttype\tx\tu8"]):
        yield patch_run("patch/text%d" % i, text)
    yield patch_run("patch/bytes", b"\xff\xfe\n")
    for rule in two:
        yield patch_run("patch/isar " + rule, rule + "\n", base=ISAR, isar=True)


# --- sack

SACK = """struct S { int a; unsigned char b[3]; };
enum E { E_1 = 1, E_2 = -1 };
union U { short a; S b; };
struct D { S s; E e; U u; double d; long long l; struct { int x; } anon; S *p; };
"""
SACK_TYPES = ["void", "bool", "char", "wchar_t", "long double", "__int128", "int[2][3]", "int[]", "int*", "int&", "D", "E", "none", "auto", "void*",
              "int (*)(int)", "decltype(1)", "float", "std::string", "unsigned", "char16_t", "_Complex double", "S const", "volatile int", "union U"]


def sack(thorough):
    def run(name, text, extra=(), files=()):
        f = {"main.hpp": text, "defs.xml": ISAR_OTHER}
        f.update(files)
        return Run("sack/" + name, f, ["--sack"] + list(extra) + ["@main.hpp"], outs="python cpp cpp_full prophy")
    spans = [m.span() for m in LEXEME.finditer(SACK)]
    yield run("base", SACK)
    for i, (s, e) in enumerate(spans):
        yield run("%d-del" % i, SACK[:s] + SACK[e:])
        for k, t in enumerate(["struct", "int", "0", "S", "{", ";", "none"] if thorough else ["S"]):
            yield run("%d-rep%d" % (i, k), SACK[:s] + t + SACK[e:])
    for i, t in enumerate(SACK_TYPES):
        yield run("type%d" % i, "typedef %s T;\nstruct S { T a; };\nstruct R { %s a; };\n" % (t, t))
    for i, text in enumerate(["", "x", "#include <none>\n", "#include \"main.hpp\"\nstruct A { int a; };\n", "#error x\n", "struct A;\n", "struct A {};\n",
                              "struct A { A *a; };\n", "struct A { A a; };\n", "struct A { int : 3; int b : 2; };\n", "enum {};\n", "enum A {};\n",
                              "enum class A { x };\nstruct B { A a; };\n", "namespace n { struct A { int a; }; }\nstruct B { n::A a; };\n",
                              "template <class T> struct A { T a; };\nstruct B { A<int> a; };\n", "struct A { virtual ~A(); int a; };\n",
                              "struct A { static int a; };\n", "struct A : none { int b; };\n", "int x = ;\n", "struct A { int a[0]; };\n",
                              "struct A { int a[-1]; };\n", "enum A { x = 1LL << 40 };\nstruct B { A a; };\n", "union A {};\nstruct B { A a; };\n",
                              "extern \"C\" { struct A { int a; }; }\n", "struct A { int a; };\nstruct A { int b; };\n", "struct int { };\n",
                              "struct A { int a; int a; };\n", "\0", "struct A { struct B { int c; } b; B d; };\n",
                              "struct A { union { int a; short b; }; };\n", "struct A { OT a; };\n"]):
        yield run("text%d" % i, text)
        yield run("text%d supplement" % i, text, ["-S", "@defs.xml"])
    yield run("bytes", b"\xff\xfe")
    yield run("bad supplement", SACK, ["-S", "@bad.xml"], {"bad.xml": "<x>"})
    yield run("cyclic supplement", SACK, ["-S", "@bad.xml"], {"bad.xml": "<x><typedef name='A' type='A'/></x>"})


# --- options

def options(thorough):
    good = {"main.prophy": "struct A { u8 a; };\n", "main.xml": "<x><struct name='A'><member name='a' type='u8'/></struct></x>",
            "patch": "A rename B\n", "main.hpp": "struct A { int a; };\n", "dir/x": ""}
    inputs = [[], ["@main.prophy"], ["@main.xml"], ["@none"], ["@dir"], ["@main.prophy", "@main.prophy"], ["@main.prophy", "@none"], [""]]
    modes = [[], ["--isar"], ["--isar", "--isar"], ["--isar", "--sack"]]
    incs = [[], ["-I", "@dir"], ["-I", "@none"], ["-I", "@patch"], ["-I"], ["-I", ""]]
    pats = [[], ["-p", "@patch"], ["--patch", "@none"], ["-p", "@dir"], ["-p"], ["-p", "@patch", "-p", "@patch"]]
    outs = [[], ["--python_out", "@dir"], ["--python_out", "@none"], ["--cpp_out", "@dir", "--cpp_full_out", "@dir"], ["--void_out"], ["--python_out"],
            ["--prophy_out", "@dir"], ["--python_out", "@patch"]]
    misc = [[], ["--version"], ["--quiet"], ["--help"], ["--none"], ["-S", "@main.xml"], ["-S", "@none"], ["--"], ["-"], ["--python"], ["--c", "@dir"]]
    axes = [inputs, modes, incs, pats, outs, misc]
    base = [1, 0, 0, 0, 1, 0]
    seen = set()
    for axis_count in (1, 2) + ((3,) if thorough else ()):
        for chosen in itertools.combinations(range(len(axes)), axis_count):
            for values in itertools.product(*[range(len(axes[c])) for c in chosen]):
                pick = list(base)
                for c, v in zip(chosen, values):
                    pick[c] = v
                if tuple(pick) in seen:
                    continue
                seen.add(tuple(pick))
                args = [a for i in (1, 2, 3, 4, 5, 0) for a in axes[i][pick[i]]]
                yield Run("option/" + " ".join(args), good, args, inputs=(), outs="")
    for blocked in ("main.py", "main.pp.hpp", "main.ppf.cpp"):
        run = Run("option/blocked " + blocked, good, ["@main.prophy"], dirs=("out/" + blocked,))
        yield run


def entry_points(thorough):
    """The same contract for the program itself: exit status and stderr of fresh processes."""
    samples = [
        prophy_run("entry/ok", BASES[0]), prophy_run("entry/syntax", "struct {"), prophy_run("entry/unknown", "struct A { B b; };"),
        isar_run("entry/xml", "<x>"), isar_run("entry/cycle", "<x><typedef name='A' type='A'/></x>"), patch_run("entry/patch", "M none\n"),
        patch_run("entry/word", "M\n"), Run("entry/none", {}, ["@none"]), Run("entry/nothing", {}, [], outs=""),
        Run("entry/bytes", {"main.prophy": b"\xff"}, ["@main.prophy"]),
        Run("entry/include", {"main.prophy": '#include "none"\n'}, ["@main.prophy"]), Run("entry/version", {}, ["--version"], outs=""),
        Run("entry/help", {}, ["--help"], outs="")]
    for s in samples:
        yield s


def work_entry(runs):
    res = core.Result()
    for run in runs:
        with core.Scratch() as d:
            os.mkdir(os.path.join(d, "out"))
            prepare(run, d)
            outcome = frontend.call(arguments(run, d))
            env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1")
            res.states += 1
            res.transitions += 1
            res.traces += 1
            try:
                p = subprocess.run([sys.executable, "-m", "prophyc"] + arguments(run, d), env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60)
            except subprocess.TimeoutExpired:
                res.violation("entry:hang", "python -m prophyc hangs\n" + show(run), case=run.name)
                continue
            err = p.stderr.decode("utf-8", "replace")
            fine = outcome.kind in ("ok", "exit0")
            res.outcomes["process exit %d" % p.returncode] += 1
            if "Traceback" in err:
                res.violation("entry:traceback:" + run.name, "python -m prophyc dies:\n%s\n%s" % (err[-500:], show(run)), case=run.name)
            elif (p.returncode == 0) != fine or p.returncode not in (0, 1):
                res.violation("entry:status:" + run.name, "python -m prophyc exits with %d, in process: %s\n%s" % (
                    p.returncode, outcome, show(run)), case=run.name)
            elif not fine and not err.strip():
                res.violation("entry:silent:" + run.name, "python -m prophyc fails silently\n" + show(run), case=run.name)
    return res


def dispatch(arg):
    kind, runs = arg
    return {"run": work, "entry": work_entry, "place": work_places}[kind](runs)


def check(ctx):
    t = ctx.thorough
    runs = list(itertools.chain(token_edits(t), char_edits(t), short_texts(t), expressions(t), declarations(t), includes(), isar_edits(t),
                                isar_texts(), isar_expressions(t), cycles(t), files_cycles(), patches(t), sack(t), options(t)))
    entry = list(entry_points(t))
    plan = [("entry", g) for g in core.chunks(ctx.pick(entry), 2)] + [("place", g) for g in core.chunks(ctx.pick(placed(t)), 100)]
    families = {}
    for r in ctx.pick(runs):
        families.setdefault(r.name.split("/")[0], []).append(r)
    for f in sorted(families):
        plan += [("run", g) for g in core.chunks(families[f], 10 if f == "include" else 250)]
    res = core.parallel(dispatch, plan, ctx.seed)
    for f, rs in families.items():
        res.extra["runs: " + f] = len(rs)
    return res


def main():
    return core.run("C13", check, assumptions=[
        "bounded: single edits of a few schemas, short texts, expressions of up to 3 symbols (4 in the thorough tier), graphs of up to 3"
        " definitions, patch scripts of up to two rules", "a run that needs more than %d s counts as a hang" % frontend.DEADLINE])
