"""C04: prophyc's layout numbers equal the wire rules and both runtimes' statics."""
import os
import subprocess

from .. import core, cppside, pyside, ref, schemas, space
from ..ref import Enum, Struct, Typedef, Union

LIB = space.library()


def typedef_cases(lib):
    """Typedefs of typedefs of every kind of type, used in every position."""
    n = 0
    for t in "u8 u64 E F2b F8 U8 U12 D1e Dt8 G1 GD".split():
        for depth in (1, 2, 3):
            n += 1
            sc = space.Scope(lib)
            cur = t
            for i in range(depth):
                cur = sc.add(Typedef("Y%dt%d" % (n, i), sc.get(cur))).name
            st = sc.get(cur).stiffness
            inner = sc.struct("Y%di" % n, "u8 " + cur)
            sc.add(Typedef("Y%dj" % n, inner))
            toks = ["u8", "Y%dj" % n]
            if st < ref.UNLIMITED:
                toks = ["u8", cur, "u16", "Y%dj" % n, "u64", cur + "<>", "u8"]
            if st == ref.FIXED:
                toks += [cur + "*", "Y%dj[2]" % n, cur + "<2>"]
            top = sc.struct("Y%d" % n, toks)
            yield space.Case("Y%d" % n, sc, top, "typedef^%d %s in %s" % (depth, t, " ".join(toks)))


def stiff_cases(lib):
    """Every stiffness in front of every stiffness, nested up to three levels."""
    n = 0
    for a in ("u8", "u8<>", "D1", "u8<@u8>", "DN", "DD", "u64<3>"):
        for b in ("u8", "u8<>", "D1", "u8<...>", "G1", "GN", "GD", "D1<...>"):
            for deep in (0, 1, 2):
                n += 1
                sc = space.Scope(lib)
                top = sc.struct("K%d" % n, [a, b])
                for i in range(deep):
                    toks = ["u8", top.name] if i else ["u8<>", top.name]
                    if top.stiffness < ref.UNLIMITED:
                        toks.append("u64")
                    top = sc.struct("K%d_%d" % (n, i), toks)
                yield space.Case("K%d" % n, sc, top, "%s %s nested %d deep" % (a, b, deep))


def work(group):
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, group):
        nodes = {}
        for lst in module._nodes.values():
            for node in lst:
                nodes[node.name] = node
        for c in cases:
            bad = len(res.violations)
            for d in (LIB.decls if c.name == "SA0" else []) + c.decls:
                examine(res, module, nodes, c, d)
                if len(res.violations) > bad + 1:
                    break
    return res


def want(t):
    return t.size if t.stiffness == ref.FIXED else None


def examine(res, module, nodes, c, d):
    def differ(what, got, expected):
        res.violation("layout:%s:%s" % (what, c.text), "%s of %s in [%s]: %s, the layout rules give %s" % (
            what, d.render(), c.text, got, expected), case=c.name, schema=c.text)

    res.states += 1
    node = nodes[d.name]
    t = d.base()
    cls = getattr(module, d.name)
    facts = []
    if not isinstance(d, Enum):
        facts.append(("stiffness in prophyc", node.kind, t.stiffness))
    if isinstance(d, (Struct, Union)):
        facts.append(("alignment in prophyc", node.alignment, t.align))
        if t.stiffness == ref.FIXED:
            facts.append(("size in prophyc", node.byte_size, t.size))
    facts.append(("alignment in Python", cls._ALIGNMENT, t.align))
    facts.append(("stiffness in Python", (bool(cls._DYNAMIC), bool(cls._UNLIMITED)),
                  (t.stiffness != ref.FIXED, t.stiffness == ref.UNLIMITED)))
    if t.stiffness == ref.FIXED:
        facts.append(("size in Python", cls._SIZE, t.size))
    for what, got, expected in facts:
        res.transitions += 1
        res.outcomes["%s=%s" % (what, expected)] += 1
        if got != expected:
            differ(what, got, expected)
    if isinstance(d, Struct):
        paddings(res, module, c, d, node, differ)
    elif isinstance(d, Union):
        for v in space.values(d):
            msg = cls()
            pyside.set_value(msg, d, v)
            res.traces += 1
            n = len(msg.encode("<"))
            if n != d.size:
                differ("length of an encoding", n, d.size)


def paddings(res, module, c, d, node, differ):
    """Walk the members with the sizes and paddings prophyc computed, for every shape of value."""
    names = [f.name for f in d.wire]
    if [m.name for m in node.members] != names:
        differ("members", [m.name for m in node.members], names)
        return
    for v in space.values(d):
        spans, total = ref.field_spans(d, v)
        res.traces += 1
        pos = 0
        for m, f, (_, start, end) in zip(node.members, d.wire, spans):
            if pos != start:
                differ("offset of %s for %r" % (m.name, v), pos, start)
                return
            if not f.dynamic and f.size is not None and m.byte_size != f.size:
                differ("size of member %s" % m.name, m.byte_size, f.size)
                return
            pos += end - start
            if m.padding < 0:
                pos += -pos % -m.padding
            else:
                pos += m.padding
        if pos != total:
            differ("length of %r" % (v,), pos, total)
            return
        if d.stiffness == ref.FIXED:
            msg = getattr(module, d.name)()
            pyside.set_value(msg, d, v)
            n = len(msg.encode(">"))
            if n != d.size:
                differ("length of an encoding", n, d.size)


def compiled(res, group):
    """encoded_byte_size and sizeof, as the compiler sees them."""
    with core.Scratch() as tmp:
        lines = ['#include "schema.ppf.hpp"', '#include "schema.pp.hpp"', "#include <cstdio>", "int main() {"]
        todo = []
        try:
            pyside.compile_text(schemas.group_text(LIB, group), tmp, outputs=("cpp", "cpp_full"))
        except Exception as e:
            res.violation("cpp", "valid schemas are not compiled to C++: %s" % e, case=group[0].name)
            return
        for c in group:
            for d in (LIB.decls if c.name == "SA0" else []) + c.decls:
                if isinstance(d, (Struct, Union)):
                    todo.append((c, d, "encoded_byte_size", want(d) or -1))
                    lines.append('std::printf("%%d\\n", int(prophy::generated::%s::encoded_byte_size));' % d.name)
                    if want(d):
                        todo.append((c, d, "raw sizeof", d.size))
                        lines.append('std::printf("%%d\\n", int(sizeof(::%s)));' % d.name)
        lines.append("}")
        with open(os.path.join(tmp, "main.cpp"), "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            cppside.compiler(cppside.FLAGS + ["-I" + cppside.INCLUDE, "-I" + tmp, "main.cpp", "-o", "main"], tmp)
        except cppside.BuildError as e:
            if len(group) > 1:
                half = len(group) // 2
                compiled(res, group[:half])
                if len(res.violations) < 6:
                    compiled(res, group[half:])
                return
            res.violation("cpp:" + group[0].text, "generated headers do not compile: %s" % e, case=group[0].name)
            return
        out = subprocess.check_output([os.path.join(tmp, "main")]).decode().split()
        for (c, d, what, expected), got in zip(todo, out):
            res.transitions += 1
            res.traces += 1
            if int(got) != expected:
                res.violation("cpp:%s:%s" % (what, c.text), "%s of %s is %s, the layout rules give %d" % (
                    what, d.render(), got, expected), case=c.name, schema=c.text)


def work_cpp(group):
    res = core.Result()
    compiled(res, group)
    return res


def work_any(arg):
    kind, group = arg
    return work(group) if kind == "py" else work_cpp(group)


def check(ctx):
    fams = [space.singles, typedef_cases, stiff_cases, space.core_pairs, space.wrapped_singles, space.tiny_triples, space.large_cases]
    more = [space.full_pairs, space.wrapped_tiny_pairs]
    if ctx.thorough:
        more += [space.core_triples, space.wrapped_core_pairs, space.tiny_quads]
    first = ctx.pick(space.gather(LIB, *fams))
    rest = ctx.pick(space.gather(LIB, *more))
    cpp = [c for c in first + (rest if ctx.thorough else []) if cppside.cpp_ok(c)]
    plan = [("cpp", g) for g in core.chunks(cpp, 150)] + [("py", g) for g in core.chunks(first + rest, 200)]
    res = core.parallel(work_any, plan, ctx.seed)
    res.extra["schemas"] = len(first) + len(rest)
    res.extra["schemas compiled as C++"] = len(cpp)
    return res


def main():
    return core.run("C04", check, assumptions=["bounded: the schema space of mc/space.py plus typedef chains and nested"
                                               " stiffness chains"])
