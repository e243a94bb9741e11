"""C08: members of the generated raw C++ structs lie where the wire format puts them."""
import os
import subprocess

from .. import core, cppside, pyside, ref, schemas, space
from ..ref import BYTES, Enum, Struct, Typedef, Union

LIB = space.library()
COMPILERS = None
PRELUDE = """
#include <cstddef>
#include <cstdio>
#include <type_traits>
#include "schema.pp.hpp"
template <class T> struct kind { enum { value = std::is_floating_point<T>::value ? 2 : std::is_signed<T>::value ? 1
    : std::is_enum<T>::value ? 3 : std::is_class<T>::value ? 4 : 0 }; };
template <class T, size_t N> struct kind<T[N]> { enum { value = kind<T>::value }; };
template <class T> struct elem { typedef T type; };
template <class T, size_t N> struct elem<T[N]> { typedef T type; };
#define MEMBER(S, m) offsetof(S, m), sizeof(((S*)0)->m), sizeof(elem<decltype(S::m)>::type), kind<decltype(S::m)>::value
static const unsigned long long table[] = {
"""
CLOSING = """0 };
int main() { for (size_t i = 0; i < sizeof(table) / sizeof(*table); ++i) std::printf("%llu\\n", table[i]); }
"""
SCALAR_KIND = {"f": 2, "d": 2, "b": 1, "h": 1, "i": 1, "q": 1}


def type_kind(t):
    t = t.base()
    if t is BYTES:
        return 0
    if isinstance(t, Enum):
        return 3
    if t.is_composite:
        return 4
    return SCALAR_KIND.get(t.fmt, 0)


def expectations(d):
    """(C++ expressions, expected numbers, description) for one definition."""
    if isinstance(d, Union):
        yield "MEMBER(%s, discriminator)" % d.name, [0, 4, 4, 3], "discriminator"
        for disc, t, name in d.arms:
            yield "MEMBER(%s, %s)" % (d.name, name), [d.align, t.size, t.size, type_kind(t)], "arm " + name
            yield "(unsigned)%s::discriminator_%s" % (d.name, name), [disc], "discriminator value of " + name
        yield "sizeof(%s)" % d.name, [d.size], "sizeof"
        return
    for k, block in enumerate(d.blocks()):
        where = d.name if not k else "%s::part%d" % (d.name, k + 1)
        off = 0
        for f in block:
            off += -off % f.align
            m = f.member
            if f.role == "counter":
                t = ref.U32 if f.name != m.name else m.type
                yield "MEMBER(%s, %s)" % (where, f.name), [off, t.size, t.size, type_kind(t)], f.name
                off += f.size
                continue
            t = m.type
            if m.kind == "opt":
                yield "MEMBER(%s, has_%s)" % (where, f.name), [off, 4, 4, 0], "flag of " + f.name
                yield ("MEMBER(%s, %s)" % (where, f.name), [off + f.align, t.size, t.size, type_kind(t)],
                       "value of " + f.name)
            elif m.kind in ("fixed", "lim", "xlim"):
                yield "MEMBER(%s, %s)" % (where, f.name), [off, m.n * t.size, t.size, type_kind(t)], f.name
            elif t.stiffness == ref.FIXED:
                yield "MEMBER(%s, %s)" % (where, f.name), [off, t.size, t.size, type_kind(t)], f.name
            else:
                yield "MEMBER(%s, %s)" % (where, f.name), [off, None, None, 4], f.name
            off += f.size or 0
    if d.stiffness == ref.FIXED:
        yield "sizeof(%s)" % d.name, [d.size], "sizeof"


def work(group):
    res = core.Result()
    explore(res, group)
    return res


def explore(res, group):
    todo = []
    with core.Scratch() as tmp:
        try:
            with core.Watchdog(300):
                pyside.compile_text(schemas.group_text(LIB, group), tmp, outputs=("cpp",))
            lines = [PRELUDE]
            for c in group:
                for d in (LIB.decls if c.name == "SA0" else []) + c.decls:
                    if isinstance(d, (Typedef, Enum)):
                        continue
                    for expr, numbers, what in expectations(d):
                        lines.append(expr + ",")
                        todo.append((c, d, expr, numbers, what))
            lines.append(CLOSING)
            with open(os.path.join(tmp, "main.cpp"), "w") as f:
                f.write("\n".join(lines))
            outputs = []
            for cxx in COMPILERS:
                subprocess.check_output([cxx] + cppside.FLAGS + ["-I" + cppside.INCLUDE, "-I" + tmp, "main.cpp", "-o",
                                                                 "main"], cwd=tmp, stderr=subprocess.STDOUT, timeout=600)
                outputs.append((cxx, subprocess.check_output([os.path.join(tmp, "main")]).decode().split()))
        except subprocess.CalledProcessError as e:
            split(res, group, [x for x in e.output.decode("utf8", "replace").splitlines() if "error" in x][:2])
            return
        except (Exception, core.Hang) as e:
            split(res, group, "%s: %s" % (type(e).__name__, e))
            return
    for cxx, out in outputs:
        judge(res, todo, [int(x) for x in out], cxx)


def split(res, group, why):
    if len(group) == 1:
        res.violation("build:" + group[0].text, "raw C++ of a valid schema is not usable: %s" % (why,),
                      case=group[0].name, schema=schemas.group_text(LIB, group))
    elif len(res.violations) < 6:
        half = len(group) // 2
        explore(res, group[:half])
        explore(res, group[half:])


def judge(res, todo, numbers, cxx):
    pos = 0
    bad = set()
    names = ("offset", "size", "element size", "kind of type")
    for c, d, expr, expected, what in todo:
        got = numbers[pos:pos + len(expected)]
        pos += len(expected)
        res.states += 1
        res.transitions += len(expected)
        res.traces += 1
        res.outcomes["offset %s" % expected[0]] += 1
        if any(e is not None and g != e for g, e in zip(got, expected)) and c.name not in bad:
            bad.add(c.name)
            diff = ", ".join("%s %s instead of %s" % (n, g, e) for n, g, e in zip(names, got, expected)
                             if e is not None and e != g)
            res.violation("raw:%s" % c.text, "%s of %s (%s): %s" % (what, d.render(), os.path.basename(cxx), diff),
                          case=c.name, schema=c.text)
    if len(todo) and res.states % 3 == 0:
        c, d, expr, expected, what = todo[0]
        res.sample("%s: %s = %s" % (d.render(), expr, expected))


def check(ctx):
    global COMPILERS
    COMPILERS = [cppside.CXX]
    fams = [space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples, space.shared_sizer_cases,
            space.wrapped_tiny_pairs, space.large_cases]
    if ctx.thorough:
        COMPILERS = [x for x in ("/usr/bin/clang++", "/usr/bin/g++") if os.path.exists(x)]
        fams += [space.full_pairs, space.core_triples, space.tiny_quads, space.wrapped_core_pairs]
    else:
        fams += [space.full_pairs, space.core_triples]
    cases = ctx.pick(space.gather(LIB, *fams))
    res = core.parallel(work, core.chunks(cases, 200), ctx.seed)
    res.extra["schemas"] = len(cases)
    return res


def main():
    return core.run("C08", check, assumptions=["bounded: the schema space of mc/space.py",
                                               "the x86-64 ABI of the compilers installed here"])
