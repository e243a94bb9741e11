"""C19: byte order changes only the bytes inside scalars; padding is always zero."""
import os
import sys

from .. import core, cppside, pyside, ref, schemas, space
from ..pyside import hexs

LIB = space.library()
DRIVER = None
SCALAR = ("scalar", "counter", "flag", "disc", "enum")


def mirrored(c, v, little, big):
    """The law itself, independent of where a codec puts the fields: both encodings have the
    same length and consist of the message's scalars in order, each little-endian in one and
    reversed in the other, with nothing but zero bytes between them."""
    if len(little) != len(big):
        return "%d bytes little-endian, %d bytes big-endian" % (len(little), len(big))
    data, spans = ref.encode_map(c.top, v, "<")
    if little == data and big == mirror(data, spans):
        return None
    pieces = [(data[o:o + n], data[o:o + n][::-1] if w in SCALAR else data[o:o + n])
              for o, n, w in spans if w in SCALAR or w == "bytes"]

    def skip(positions):
        out = set()
        for p in positions:
            out.add(p)
            while p < len(little) and little[p] == 0 and big[p] == 0:
                p += 1
                out.add(p)
        return out

    at = skip([0])
    for lo, hi in pieces:
        at = skip([p + len(lo) for p in at if little[p:p + len(lo)] == lo and big[p:p + len(lo)] == hi])
        if not at:
            return "little-endian %s, big-endian %s" % (hexs(little), hexs(big))
    if len(little) not in at:
        return "little-endian %s, big-endian %s" % (hexs(little), hexs(big))
    return None


def mirror(data, spans):
    out = bytearray(data)
    for o, n, w in spans:
        if w in SCALAR:
            out[o:o + n] = out[o:o + n][::-1]
    return bytes(out)


def complain(res, c, v, where, problem):
    res.violation("order:%s" % c.text, "%s: %r: %s" % (where, v, problem), case=c.name, schema=c.text, value=repr(v))


def work_python(group):
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, group):
        for c in cases:
            cls = getattr(module, c.top.name)
            for v in space.values(c.top):
                res.states += 1
                res.transitions += 2
                res.traces += 1
                try:
                    with core.Watchdog(60):
                        msg = cls()
                        pyside.set_value(msg, c.top, v)
                        little, big = msg.encode("<"), msg.encode(">")
                except (Exception, core.Hang) as e:
                    complain(res, c, v, "Python", "%s: %s" % (type(e).__name__, e))
                    break
                problem = mirrored(c, v, little, big)
                if problem:
                    complain(res, c, v, "Python", problem)
                    break
                res.outcomes["len%03d" % len(little)] += 1
    return res


def work_cpp(group):
    res = core.Result()
    for cases, exe, scratch in cppside.build_groups(res, LIB, group, DRIVER, san=[]):
        with scratch:
            requests, context = [], []
            for i, c in enumerate(cases):
                for v in space.values(c.top):
                    if ref.tail_aligned(c.top, v):
                        requests.append("X %d l %s" % (i, cppside.hexarg(ref.encode(c.top, v, "<"))))
                        context.append((c, v))
            bad = set()
            for (c, v), reply in zip(context, cppside.converse(exe, requests)):
                res.states += 1
                if reply == "SKIPPED" or c.name in bad:
                    continue
                parts = reply.split(" ")
                if parts[0] == "0":
                    res.outcomes["value not reached by decoding"] += 1
                    continue
                res.transitions += 4
                res.traces += 1
                if parts[0] != "1":
                    problem = reply
                else:
                    little, big, native = [cppside.unhex(x) for x in parts[2:5]]
                    problem = mirrored(c, v, little, big)
                    if not problem and native != (little if sys.byteorder == "little" else big):
                        problem = "native gives %s, little-endian %s" % (hexs(native), hexs(little))
                if problem:
                    bad.add(c.name)
                    complain(res, c, v, "C++", problem)
                else:
                    res.outcomes["C++ len%03d" % len(little)] += 1
    return res


def check(ctx):
    global DRIVER
    cases = ctx.pick(space.schema_cases(LIB, 2 if ctx.thorough else 1))
    res = core.parallel(work_python, core.chunks(cases, 240), ctx.seed)
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=[])
        if ctx.thorough:
            cpp = space.schema_cases(LIB, 1, shared=False)
        else:
            cpp = space.gather(LIB, space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples, space.large_cases)
        cpp = [c for c in ctx.pick(cpp) if cppside.cpp_ok(c)]
        res.merge(core.parallel(work_cpp, core.chunks(cpp, 120), ctx.seed))
    res.extra["schemas"] = len(cases)
    res.extra["schemas in C++"] = len(cpp)
    return res


def main():
    return core.run("C19", check, assumptions=["bounded: the schema and value space of mc/space.py"])
