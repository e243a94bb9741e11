"""C14: constant expressions denote one integer, the same in every back-end."""
import os
import re
import struct
import subprocess
from xml.sax.saxutils import quoteattr

from .. import core, cppside, expr, pyside

NAMES = {"IA": 6, "IE_B": 3, "IE_Z": 0, "LA": 5, "LN": -4, "LC": 29, "LE_A": 2, "LE_B": 7}
BASE = """
const IA = 2 * 3;
enum IE { IE_B = 3, IE_Z = IE_B - 3 };
"""
HEAD = """
#include "base.prophy"
const LA = 5;
const LN = 1 - LA;
const LC = LA * IA - 1;
enum LE { LE_A = 2, LE_B = LE_A + LA };
"""
ISAR_BASE = """<x>
<constant name="IA" value="2 * 3"/>
<enum name="IE"><enum-member name="IE_B" value="3"/><enum-member name="IE_Z" value="IE_B - 3"/></enum>
</x>"""
ISAR_HEAD = """<x xmlns:xi="http://www.w3.org/2001/XInclude">
<xi:include href="base.xml"/>
<constant name="LA" value="5"/>
<constant name="LN" value="1 - LA"/>
<constant name="LC" value="LA * IA - 1"/>
<enum name="LE"><enum-member name="LE_A" value="2"/><enum-member name="LE_B" value="LE_A + LA"/></enum>
"""
LIMIT = 1200


class Point(object):
    """One expression text and what it must denote in each position."""

    def __init__(self, number, text, value, sized=True):
        self.number, self.text, self.value = number, text, value
        self.name = "X%d" % number
        self.const = -2 ** 63 < value < 2 ** 64
        self.enum = 0 <= value < 2 ** 32
        self.size = sized and 1 <= value <= LIMIT

    @property
    def total(self):
        """Size of the struct { enum; u8 a[v]; u16 b<v>; u64 c[v] } (the enum when in range always)."""
        v = self.value
        n = 4 + v
        n += -n % 4 + 4
        n += 2 * v
        n += -n % 8 + 8 * v
        return n

    def prophy(self):
        n, t = self.number, self.text
        out = ["const K%d = %s;" % (n, t)]
        if self.enum:
            out.append("enum E%d { E%d_pad = %d, E%d_v = %s };" % (n, n, (self.value + 1) % 2 ** 32, n, t))
            out.append("union U%d { %d: u8 pad; %s: u16 v; };" % (n, (self.value + 1) % 2 ** 32, t))
        if self.size:
            out.append("struct S%d { E%d e; u8 a[%s]; u16 b<%s>; u64 c[%s]; };" % (n, n, t, t, t))
        return "\n".join(out) + "\n"

    def isar(self):
        n, t = self.number, quoteattr(self.text)
        out = ['<constant name="K%d" value=%s/>' % (n, t)]
        if self.enum:
            other = (self.value + 1) % 2 ** 32
            out.append('<enum name="E%d"><enum-member name="E%d_pad" value="%d"/><enum-member name="E%d_v" value=%s/></enum>' % (
                n, n, other, n, t))
            if "shiftLeft" not in t and "bitMaskOr" not in t:
                out.append('<union name="U%d"><member type="u8" name="pad" discriminatorValue="%d"/>'
                           '<member type="u16" name="v" discriminatorValue=%s/></union>' % (n, other, t))
        if self.size:
            out.append('<struct name="S%d"><member type="E%d" name="e"/>'
                       '<member type="u8" name="a"><dimension size=%s/></member>'
                       '<member type="u16" name="b"><dimension isVariableSize="true" size=%s/></member>'
                       '<member type="u64" name="c"><dimension size=%s/></member></struct>' % (n, n, t, t, t))
        return "\n".join(out) + "\n"


def write(directory, name, text):
    with open(os.path.join(directory, name), "w") as f:
        f.write(text)


def build(kind, points, directory, outputs):
    package = os.path.join(directory, "gen")
    os.mkdir(package)
    write(package, "__init__.py", "")
    args = []
    for o in outputs:
        args += ["--%s_out" % o, package]
    if kind == "isar":
        write(directory, "base.xml", ISAR_BASE)
        write(directory, "schema.xml", ISAR_HEAD + "".join(p.isar() for p in points) + "</x>")
        args += ["--isar", os.path.join(directory, "base.xml"), os.path.join(directory, "schema.xml")]
    else:
        write(directory, "base.prophy", BASE)
        write(directory, "schema.prophy", HEAD + "".join(p.prophy() for p in points))
        args += [os.path.join(directory, "base.prophy"), os.path.join(directory, "schema.prophy")]
    with core.Watchdog(120):
        return pyside.prophyc_main(args)


def load(directory):
    """Import the generated package, the way its relative imports require."""
    import importlib
    import sys
    global _count
    _count += 1
    alias = "verif_c14_%d_%d" % (os.getpid(), _count)
    os.rename(os.path.join(directory, "gen"), os.path.join(directory, alias))
    sys.path.insert(0, directory)
    try:
        importlib.invalidate_caches()
        return importlib.import_module(alias + ".schema"), os.path.join(directory, alias)
    finally:
        sys.path.pop(0)


_count = 0


def work(arg):
    kind, points, full = arg
    res = core.Result()
    examine(res, kind, points, full)
    return res


def examine(res, kind, points, full):
    with core.Scratch() as d:
        try:
            nodes = build(kind, points, d, ("python", "cpp", "cpp_full") if points[0].const else ("python",))
            module, gen = load(d)
        except (Exception, core.Hang) as e:
            if len(points) > 1:
                if len(res.violations) > 12:
                    return
                half = len(points) // 2
                examine(res, kind, points[:half], full)
                examine(res, kind, points[half:], full)
                return
            p = points[0]
            res.violation("build:%s:%s" % (kind, p.text), "%s: a schema using %r (= %d) is not usable: %s: %s" % (
                kind, p.text, p.value, type(e).__name__, e), case=p.name, expression=p.text, front_end=kind)
            return
        in_model(res, kind, points, nodes)
        in_python(res, kind, points, module)
        if points[0].const:
            in_cpp(res, kind, points, gen, full)


def differ(res, kind, p, where, got):
    res.violation("%s:%s:%s" % (kind, where, p.text), "%s: %r is %s in %s, integer arithmetic gives %s" % (
        kind, p.text, got, where, p.value if "size" not in where else "%d (%d bytes)" % (p.value, p.total)),
        case=p.name, expression=p.text, front_end=kind)


def in_model(res, kind, points, nodes):
    from prophyc import calc, model
    by_name = {n.name: n for n in nodes["schema"]}
    with core.Watchdog(120):
        _, constants = model.evaluate_model(nodes["schema"])
    for p in points:
        res.states += 1
        res.traces += 1
        res.transitions += 1
        res.outcomes["value of %d bits%s" % (abs(p.value).bit_length(), " negative" if p.value < 0 else "")] += 1
        got = constants.get("K%d" % p.number)
        if type(got) is not int or got != p.value:
            differ(res, kind, p, "the model's constants", got)
        if p.enum:
            got = constants.get("E%d_v" % p.number)
            if type(got) is not int or got != p.value:
                differ(res, kind, p, "the model's enumerators", got)
        if p.size:
            s = by_name["S%d" % p.number]
            if s.byte_size != p.total:
                differ(res, kind, p, "the model's size", s.byte_size)
            sizes = [m.numeric_size for m in s.members if m.size]
            if sizes != [p.value] * 3:
                differ(res, kind, p, "the model's array extents", sizes)
        plain = not re.search(r"(?<![0-9a-zA-Z_])0\d|/\*|//|[|,]", p.text)
        if plain:
            res.extra["expressions read by both evaluators"] += 1
            try:
                got = calc.eval(p.text, dict(NAMES))
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, e)
            if type(got) is not int or got != p.value:
                differ(res, kind, p, "the model-time evaluator", got)


def in_python(res, kind, points, module):
    for p in points:
        n = p.number
        res.transitions += 1
        got = getattr(module, "K%d" % n, None)
        if type(got) is not int or got != p.value:
            differ(res, kind, p, "the Python constant", got)
        if p.enum:
            got = getattr(module, "E%d_v" % n, None)
            if type(got) is not int or got != p.value:
                differ(res, kind, p, "the Python enumerator", got)
            cls = getattr(module, "U%d" % n, None)
            if cls:
                msg = cls()
                msg.discriminator = "v"
                got = struct.unpack("<I", msg.encode("<")[:4])[0]
                if got != p.value or int(msg.discriminator) != p.value:
                    differ(res, kind, p, "the Python discriminator", got)
        if p.size:
            msg = getattr(module, "S%d" % n)()
            msg.e = "E%d_v" % n
            data = msg.encode(">")
            if struct.unpack(">I", data[:4])[0] != p.value:
                differ(res, kind, p, "the enum on the wire", data[:4])
            if len(data) != p.total:
                differ(res, kind, p, "the Python size", len(data))
            lens = (len(msg.a), len(msg.c))
            if lens != (p.value, p.value):
                differ(res, kind, p, "the Python array extents", lens)
            msg.b[:] = [1] * p.value
            try:
                msg.b.append(1)
                differ(res, kind, p, "the Python array limit", "more")
            except Exception as e:
                if type(e).__name__ != "ProphyError":
                    raise


CPP = """
#include <cstdio>
template <class T> void show(T v) { v < T(0) ? std::printf("%%lld\\n", (long long)v) : std::printf("%%llu\\n", (unsigned long long)v); }
template <class T> long long extent(T& a) { return sizeof(a) / sizeof(a[0]); }
#include "%s"
int main()
{
%s
}
"""


def in_cpp(res, kind, points, gen, full):
    for header, ns in (("schema.ppf.hpp", "prophy::generated::"), ("schema.pp.hpp", "")):
        lines, todo = [], []

        def want(p, where, value, what):
            todo.append((p, where, value))
            lines.append("show(+(%s));" % what)

        for p in points:
            n = p.number
            if p.const:
                want(p, "the C++ constant (%s)" % header, p.value, "%sK%d" % (ns, n))
            if p.enum:
                want(p, "the C++ enumerator (%s)" % header, p.value, "%sE%d_v" % (ns, n))
                if "|" not in p.text and "," not in p.text:
                    want(p, "the C++ discriminator (%s)" % header, p.value, "%sU%d::discriminator_v" % (ns, n))
            if p.size:
                if ns:
                    want(p, "the C++ size (%s)" % header, p.total, "%sS%d::encoded_byte_size" % (ns, n))
                    lines.append("{ %sS%d s; show(s.a.size()); show(s.c.size()); }" % (ns, n))
                    todo += [(p, "the C++ array extent (%s)" % header, p.value)] * 2
                else:
                    want(p, "the C++ size (%s)" % header, p.total, "sizeof(S%d)" % n)
                    lines.append("{ static S%d s; show(extent(s.a)); show(extent(s.b)); show(extent(s.c)); }" % n)
                    todo += [(p, "the C++ array extent (%s)" % header, p.value)] * 3
        try:
            text = CPP % (header, "\n".join(lines))
            write(gen, "main.cpp", text)
            sources = ["main.cpp"]
            if full and ns:
                sources += ["schema.ppf.cpp", "base.ppf.cpp"]
            elif full:
                sources += ["schema.pp.cpp", "base.pp.cpp"]
            cppside.compiler(cppside.FLAGS + ["-w", "-I" + cppside.INCLUDE, "-I" + gen] + sources + ["-o", "main"], gen)
            out = subprocess.check_output([os.path.join(gen, "main")]).decode().split()
        except (cppside.BuildError, subprocess.CalledProcessError) as e:
            res.violation("cpp:%s:%s" % (kind, header), "%s: the generated %s is not usable: %s" % (
                kind, header, str(e)[:600]), case=points[0].name, expressions=[p.text for p in points])
            continue
        if len(out) != len(todo):
            raise core.CheckError("unexpected output of the C++ program")
        for (p, where, value), got in zip(todo, out):
            res.transitions += 1
            if int(got) != value:
                differ(res, kind, p, where, got)


def isar_operators():
    """shiftLeft and bitMaskOr, plain, nested, and inside larger expressions."""
    def sh(a, b):
        return a[1] * 2 ** b[1]
    atoms = [("1", 1), ("3", 3), ("LA", 5), ("1 + 2", 3), ("(LA - 1)", 4), ("0x10", 16), ("IA", 6)]

    def pairs(xs, ys):
        for a in xs:
            for b in ys:
                if b[1] <= 40:
                    yield "shiftLeft(%s, %s)" % (a[0], b[0]), sh(a, b)
                    yield "shiftLeft(%s,%s)" % (a[0], b[0]), sh(a, b)
                yield "bitMaskOr(%s, %s)" % (a[0], b[0]), a[1] | b[1]
    first = list(pairs(atoms, atoms))
    small = [f for f in first if f[1] < 30][::7]
    for f in first:
        yield f
    for f in list(pairs(small, atoms[:3])) + list(pairs(atoms[:3], small)) + list(pairs(small[:6], small[:6])):
        yield f
    for t, v in small + first[:20]:
        yield "%s + 1" % t, v + 1
        yield "2 * %s - LA" % t, 2 * v - 5
        yield "-%s" % t, -v
        yield "(%s) << 2" % t, v * 4
        yield "%s + %s" % (t, t), 2 * v


def check(ctx):
    prophy = [Point(i, t, v) for i, (t, v) in enumerate(expr.texts(NAMES, ctx.thorough))]
    isar = [Point(i, t, v) for i, (t, v) in enumerate(expr.texts(NAMES, ctx.thorough, octal=False, comment=False))]
    special = {}
    for t, v in isar_operators():
        special.setdefault(t, v)
    ops = [Point(i, t, v, sized=False) for i, (t, v) in enumerate(special.items())]
    if not ctx.thorough:
        # arrays of every extent for the short expressions, one in four of the longer ones
        for p in prophy + isar:
            if p.number > 4000 and p.number % 4:
                p.size = False
    plan = []
    for kind, points in (("isar", isar), ("isar", ops), ("prophy", prophy)):
        points = ctx.pick(points)
        # C++ has no integers beyond 64 bits
        for group in ([p for p in points if p.const], [p for p in points if not p.const]):
            plan += [(kind, g, i == 0) for i, g in enumerate(core.chunks(group, 400))]
    res = core.parallel(work, plan, ctx.seed)
    res.extra["expressions in prophy syntax"] = len(prophy)
    res.extra["expressions in isar syntax"] = len(isar) + len(ops)
    return res


def main():
    return core.run("C14", check, assumptions=[
        "bounded: expressions of up to four binary operators (five operands in the thorough tier)",
        "octal literals only in prophy syntax: the isar evaluator reads decimal and hexadecimal literals only"])
