"""C07: C++ full decode is memory-safe and exact on arbitrary bytes."""
from .. import core, corrupt, cppside, ref, space
from ..pyside import hexs
from .c06 import inputs, short_of

LIB = space.library()
DRIVER = None


def work(arg):
    group, limit, doubles = arg
    res = core.Result()
    for cases, exe, scratch in cppside.build_groups(res, LIB, group, DRIVER):
        with scratch:
            explore(res, cases, exe, limit, doubles)
    return res


def explore(res, cases, exe, limit, doubles):
    requests, context = [], []
    for i, c in enumerate(cases):
        seen = set()
        for e, what, data in inputs(c, limit, doubles):
            if (e, data) in seen:
                continue
            seen.add((e, data))
            letter = "b" if e == ">" else "ln"[len(seen) % 2]
            requests.append("R %d %s %s" % (i, letter, cppside.hexarg(data)))
            context.append((c, letter, what, data))
    bad = {}
    for (c, e, what, data), reply in zip(context, cppside.converse(exe, requests)):
        res.states += 1
        res.transitions += 1
        res.traces += 1
        problem = judge(res, what, data, reply)
        if problem and bad.setdefault(c.name, 0) < 2:
            bad[c.name] += 1
            res.violation("decode:%s" % c.text, "%s %s (%s endian): %s" % (what, hexs(data), e, problem),
                          case=c.name, schema=c.text, data=hexs(data), endianness=e)


def judge(res, what, data, reply):
    if reply == "SKIPPED":
        return None
    parts = reply.strip().split(" ")
    if parts[0] not in "01":
        return reply
    asked = int(parts[1])
    if asked > 4096 + 512 * len(data):
        return "%d bytes of memory requested for %d bytes of input" % (asked, len(data))
    if parts[0] == "0":
        res.outcomes[what + " refused"] += 1
        return None
    res.outcomes[what + " accepted"] += 1
    res.transitions += 2
    again = cppside.unhex(parts[-1])
    if len(again) != len(data) or int(parts[3]) != len(data):
        return "%d bytes accepted, but they re-encode to %d bytes %s" % (len(data), len(again), hexs(again))
    return None


def check(ctx):
    global DRIVER

    def g(*fams):
        return [c for c in ctx.pick(space.gather(LIB, *fams)) if cppside.cpp_ok(c)]
    if ctx.thorough:
        plan = [(x, 6, True) for x in core.chunks(g(space.singles), 10)]
        plan += [(x, 3, True) for x in core.chunks(g(space.core_pairs), 30)]
        plan += [(x, 2, False) for x in core.chunks(g(
            space.wrapped_singles, space.tiny_triples, space.wrapped_tiny_pairs), 60)]
        plan += [(x, 1, False) for x in core.chunks(g(
            space.full_pairs, space.core_triples, space.wrapped_core_pairs, space.deep_cases, space.patched_cases), 150)]
    else:
        plan = [(x, 4, True) for x in core.chunks(g(space.singles), 10)]
        plan += [(x, 2, False) for x in core.chunks(g(space.core_pairs, space.wrapped_singles), 60)]
        plan += [(x, 1, False) for x in core.chunks(g(space.tiny_triples, space.wrapped_tiny_pairs, space.deep_cases, space.patched_cases), 120)]
    plan = [(x, 1, False) for x in core.chunks(g(space.wide_cases, short_of(space.long_cases)), 12)] + plan
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d)
        res = core.parallel(work, plan, ctx.seed)
    res.extra["schemas"] = sum(len(p[0]) for p in plan)
    return res


def main():
    return core.run("C07", check, assumptions=[
        "bounded: encodings of the schema space cut, extended, control words and bytes replaced (one fault; two faults"
        " for single-member schemas), plus every byte string over {0,1,2,255} up to length 5",
        "memory bound: 4 KiB + 512 bytes per input byte; buffers aligned like malloc aligns them",
        "UBSan without -fsanitize=enum"])
