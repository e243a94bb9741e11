"""Generates C++ with prophyc, compiles it with sanitizers and talks to it."""
import os
import subprocess
import sys

from . import core, pyside, ref, space
from .ref import BYTES, Struct, Union

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cpp")
INCLUDE = os.path.join(core.REPO, "prophy_cpp", "include")
CXX = next((c for c in ("/usr/bin/clang++", "/usr/bin/g++") if os.path.exists(c)), "c++")
# -fsanitize=enum is left out: under the C++11 the project uses, converting an out of
# range number to an enum gives an unspecified value and is not undefined behaviour.
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=all"]
FLAGS = ["-std=c++11", "-O0", "-w"]
RUN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
               "max_malloc_fill_size=0", UBSAN_OPTIONS="print_stacktrace=0")


class BuildError(Exception):
    pass


def compiler(args, cwd, timeout=600):
    p = subprocess.run([CXX] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, preexec_fn=core.unlimited)
    if p.returncode:
        out = p.stdout.decode("utf8", "replace")
        errors = [ln for ln in out.splitlines() if "error" in ln][:3]
        raise BuildError("\n".join(errors) or out[:1000])


def prepare(directory, san=SAN):
    """Compile the fixed part of the driver once per run."""
    compiler(FLAGS + san + ["-I" + INCLUDE, "-I" + HERE, "-c", os.path.join(HERE, "driver.cpp"),
                            "-o", os.path.join(directory, "driver.o")], directory)
    return os.path.join(directory, "driver.o")


def has_limited(t):
    """Limited arrays occur somewhere inside t."""
    t = t.base()
    if isinstance(t, Struct):
        return any(m.kind in ("lim", "xlim") or has_limited(m.type) for m in t.members)
    return isinstance(t, Union) and any(has_limited(a[1]) for a in t.arms)


def overfill_source(lib, group):
    """Functions that push elements beyond the limit of every limited array of a message."""
    types = []
    for d in list(lib.decls) + [d for c in group for d in c.decls]:
        if isinstance(d, (Struct, Union)) and has_limited(d) and d not in types:
            types.append(d)
    lines = ["namespace verif {"]
    lines += ["void fill(%s& x);" % t.name for t in types]
    lines += ["template <class T> void fill(T&) {}",
              "template <class T> void fill(std::vector<T>& v) { for (size_t i = 0; i < v.size(); ++i) fill(v[i]); }",
              "template <class T, size_t N> void fill(prophy::array<T, N>& v) { for (size_t i = 0; i < N; ++i) fill(v[i]); }",
              "template <class T> void fill(prophy::optional<T>& v) { if (v) fill(*v); }",
              "template <class T> void over_(std::vector<T>& v) { T e = v.empty() ? T() : v[0]; "
              "for (int i = 0; i < 11; ++i) v.push_back(e); }"]
    for t in types:
        if isinstance(t, Struct):
            body = "".join("fill(x.%s); " % m.name for m in t.members if m.type is not BYTES and has_limited(m.type))
            body += "".join("over_(x.%s); " % m.name for m in t.members if m.kind in ("lim", "xlim"))
        else:
            body = "".join("fill(x.%s); " % a[2] for a in t.arms if has_limited(a[1]))
        lines.append("void fill(%s& x) { %s}" % (t.name, body))
    for c in group:
        if has_limited(c.top):
            lines.append("template <> struct overfill<%s> { static bool apply(%s& x) { fill(x); return true; } };" % (
                c.top.name, c.top.name))
    lines.append("}")
    return lines


def driver_source(lib, group, over):
    lines = ['#include "schema.ppf.cpp"', '#include "driver.hpp"', ""]
    if over:
        lines += over(lib, group)
    lines.append("static const verif::handler handlers[] = {")
    lines += ["    &verif::handle<%s>," % c.top.name for c in group]
    lines.append("};")
    lines.append("int main() { return verif::run(handlers, %d); }" % len(group))
    return "\n".join(lines) + "\n"


def build_full(lib, group, directory, driver_o, over=None, san=SAN, outputs=()):
    """Build the executable for a group of cases."""
    text = ref.render_schema(lib.decls) + "".join(ref.render_schema(c.decls) for c in group)
    pyside.compile_text(text, directory, outputs=("cpp_full",) + outputs)
    with open(os.path.join(directory, "main.cpp"), "w") as f:
        f.write(driver_source(lib, group, over))
    exe = os.path.join(directory, "driver")
    compiler(FLAGS + san + [
        "-I" + INCLUDE, "-I" + HERE, "-I" + directory, "main.cpp", driver_o, "-o", exe], directory)
    return exe


def converse(exe, requests, timeout=300):
    """Feed the request lines; returns replies, one per request. A request that kills the
    process gets the reply 'CRASH <first line of the report>' and the rest goes on."""
    replies = []
    todo = list(requests)
    crashes = 0
    while todo:
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=RUN_ENV,
                             preexec_fn=core.unlimited)
        try:
            out, err = p.communicate(("\n".join(todo) + "\n").encode(), timeout=timeout)
            note = report(err.decode("utf8", "replace"), p.returncode)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            note = "no answer within %d s" % timeout
        got = out.decode("utf8", "replace").split("\n")
        got.pop()
        if len(got) < len(todo):
            got = got + ["CRASH " + note]
            crashes += 1
        replies += got
        todo = todo[len(got):]
        if crashes >= 5:
            replies += ["SKIPPED"] * len(todo)
            break
    return replies


def report(err, code):
    for ln in err.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error" in ln or "terminate called" in ln:
            ln = ln.split("==ERROR: ")[-1]
            return ln.strip()[:200]
    return "exit code %s %s" % (code, err.strip()[:200])


def build_groups(res, lib, group, driver_o, key="build", **how):
    """Yield (cases, executable, scratch) for a group, splitting it when it does not build."""
    scratch = core.Scratch()
    try:
        with core.Watchdog(600):
            exe = build_full(lib, group, scratch.path, driver_o, **how)
        return [(group, exe, scratch)]
    except (Exception, core.Hang) as e:
        error = e
    scratch.__exit__()
    if len(group) == 1:
        c = group[0]
        res.violation("%s:%s" % (key, c.text), "valid schema is not usable from C++: %s: %s" % (
            type(error).__name__, str(error)[:600]), case=c.name, schema=c.text)
        return []
    if len(res.violations) > 5:
        return []
    half = len(group) // 2
    return (build_groups(res, lib, group[:half], driver_o, key, **how) +
            build_groups(res, lib, group[half:], driver_o, key, **how))


def cpp_ok(case):
    """Schemas in the reach of the C++ full generator: one array per sizer."""
    for d in case.decls:
        if isinstance(d, Struct):
            sizers = [m.sizer for m in d.members if m.kind in ("ext", "xlim")]
            if len(sizers) != len(set(sizers)):
                return False
    return True


def unhex(s):
    return b"" if s == "-" else bytes.fromhex(s)


def hexarg(b):
    return b.hex() or "-"
