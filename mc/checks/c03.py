"""C03: Python and generated C++ full codec are wire-compatible for every message."""
import os

from .. import core, cppside, pyside, ref, space
from ..pyside import hexs

LIB = space.library()
DRIVER = None
E = {"l": "<", "b": ">", "n": "<"}  # the host is little endian


def work(group):
    res = core.Result()
    for cases, exe, scratch in cppside.build_groups(res, LIB, group, DRIVER, san=[], outputs=("python",)):
        with scratch:
            try:
                module = pyside.load_module(os.path.join(scratch.path, "schema.py"))
            except Exception as e:
                res.violation("import", "generated Python module does not import: %s: %s" % (type(e).__name__, e),
                              case=cases[0].name, schema=cases[0].text)
                continue
            explore(res, cases, exe, module)
    return res


def python_problem(cls, c, v, e, data):
    """Python writes what C++ reads and reads what C++ writes."""
    try:
        with core.Watchdog(60):
            msg = cls()
            pyside.set_value(msg, c.top, v)
            mine = msg.encode(e)
            if mine != data:
                return "Python encodes as %s" % hexs(mine)
            back = cls()
            back.decode(data, e)
            again = back.encode(e)
            if again != data:
                return "Python decodes and re-encodes as %s" % hexs(again)
    except (Exception, core.Hang) as ex:
        return "Python raises %s: %s" % (type(ex).__name__, ex)


def explore(res, cases, exe, module):
    requests, context = [], []
    for i, c in enumerate(cases):
        cls = getattr(module, c.top.name)
        silent = False
        for v in space.values(c.top):
            if not ref.tail_aligned(c.top, v):
                res.extra["greedy tail followed by padding"] += 1
                continue
            res.states += 1
            for e in "lbn":
                data = ref.encode(c.top, v, E[e])
                requests.append("R %d %s %s" % (i, e, cppside.hexarg(data)))
                context.append((c, v, e, data))
                if e != "n" and not silent:
                    problem = python_problem(cls, c, v, E[e], data)
                    if problem:
                        silent = True
                        res.violation("wire:%s" % c.text, "%s endian %s of %r: %s" % (e, hexs(data), v, problem),
                                      case=c.name, schema=c.text, data=hexs(data), endianness=e, value=repr(v))
    bad = {}
    for (c, v, e, data), reply in zip(context, cppside.converse(exe, requests)):
        res.transitions += 2
        res.traces += 1
        problem = judge(reply, data)
        if problem is None:
            res.outcomes["%s len%03d" % (e, len(data))] += 1
            if res.traces % 9000 == 1:
                res.sample("%s | %s %s decoded and re-encoded" % (c.text, e, hexs(data)))
        elif bad.setdefault(c.name, 0) < 2:
            bad[c.name] += 1
            res.violation("wire:%s" % c.text, "%s endian %s of %r: %s" % (e, hexs(data), v, problem),
                          case=c.name, schema=c.text, data=hexs(data), endianness=e, value=repr(v))


def judge(reply, data):
    if reply == "SKIPPED":
        return None
    parts = reply.split(" ")
    if parts[0] == "0":
        return "C++ refuses the canonical bytes"
    if parts[0] != "1":
        return reply
    again = cppside.unhex(parts[-1])
    if again != data:
        return "C++ re-encodes as %s" % hexs(again)
    return None


def check(ctx):
    global DRIVER
    cases = [c for c in ctx.pick(cases_for(ctx)) if cppside.cpp_ok(c)]
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=[])
        res = core.parallel(work, core.chunks(cases, 150), ctx.seed)
    res.extra["schemas"] = len(cases)
    return res


def cases_for(ctx):
    if ctx.thorough:
        return space.schema_cases(LIB, 1, shared=False)
    return space.gather(LIB, space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples,
                        space.wrapped_tiny_pairs, space.wrapped_core_pairs, space.large_cases)


def main():
    return core.run("C03", check, assumptions=[
        "bounded: the schema and value space of mc/space.py",
        "messages are handed to C++ in buffers aligned like malloc aligns them"])
