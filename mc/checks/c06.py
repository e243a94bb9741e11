"""C06: Python decode is total: any bytes decode or raise ProphyError, nothing else."""
import tracemalloc

from .. import core, corrupt, pyside, ref, schemas, space
from ..pyside import hexs

LIB = space.library()


def rich_values(t, limit):
    """The values whose encodings are corrupted: the longest ones first."""
    vals = list(space.values(t))
    vals.sort(key=lambda v: -len(ref.encode(t, v, "<")))
    out = vals[:limit]
    if vals[len(vals) // 2] not in out and limit > 1:
        out.append(vals[len(vals) // 2])
    return out


def work(arg):
    group, limit, doubles = arg
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, group):
        import prophy
        for c in cases:
            explore(res, module, c, limit, doubles, prophy.ProphyError)
    return res


def inputs(c, limit, doubles):
    light = limit == 1
    for v in rich_values(c.top, limit):
        for e in "<" if light else "<>":
            data, spans = ref.encode_map(c.top, v, e)
            for what, d in corrupt.single(data, spans, e):
                if not light or what in ("cut", "control"):
                    yield e, what, d
            if doubles and len(data) <= 40:
                for what, d in corrupt.double(data, spans, e):
                    yield e, what, d
    if doubles:
        for d in corrupt.all_strings((0, 1, 2, 255), 5):
            for e in "<>":
                yield e, "string", d


def explore(res, module, c, limit, doubles, error):
    cls = getattr(module, c.top.name)
    seen = set()
    bad = 0
    for e, what, data in inputs(c, limit, doubles):
        if (e, data) in seen:
            continue
        seen.add((e, data))
        problem = judge(res, cls, c, e, what, data, error)
        res.states += 1
        res.traces += 1
        if problem:
            res.violation("decode:%s" % c.text, "%s %s ('%s', %s): %s" % (what, hexs(data), e, c.text, problem),
                          case=c.name, schema=c.text, data=hexs(data), endianness=e)
            bad += 1
            if bad > 2:
                return


def judge(res, cls, c, e, what, data, error):
    res.transitions += 1
    try:
        with core.Watchdog(10):
            if what in ("control", "control+cut"):
                problem, msg = measured_decode(cls, data, e, error)
                if problem:
                    return problem
            else:
                msg = cls()
                try:
                    msg.decode(data, e)
                except error:
                    msg = None
            if msg is None:
                res.outcomes[what + " refused"] += 1
                return None
            res.outcomes[what + " accepted"] += 1
            res.transitions += 3
            value = pyside.get_value(msg, c.top)
            why = ref.invalid(c.top, value)
            if why:
                return "accepted with %s" % why
            again = msg.encode(e)
            if not ref.tail_aligned(c.top, value):
                res.extra["greedy tail followed by padding"] += 1
                return None
            msg2 = cls()
            msg2.decode(again, e)
            value2 = pyside.get_value(msg2, c.top)
            if msg2.encode(e) != again:
                return "accepted, but encode -> decode -> encode changes %s into %s" % (
                    hexs(again), hexs(msg2.encode(e)))
            if not pyside.strict_eq(value, value2):
                return "accepted as %r, but decoding its encoding gives %r" % (value, value2)
    except core.Hang as ex:
        return str(ex)
    except Exception as ex:
        return "%s: %s" % (type(ex).__name__, ex)
    return None


def measured_decode(cls, data, e, error):
    tracemalloc.start()
    msg = cls()
    try:
        msg.decode(data, e)
    except error:
        msg = None
    _, peak = tracemalloc.get_traced_memory()
    tracemalloc.stop()
    if peak > 262144 + 4096 * len(data):
        return "%d bytes of memory for %d bytes of input" % (peak, len(data)), msg
    return None, msg


def short_of(family):
    """The cases of a family without most of the very long ones, which take long under supervision."""
    def cases(lib):
        for i, c in enumerate(family(lib)):
            if i % 6 == 0 or max(len(ref.encode(c.top, v, "<")) for v in c.top.chosen) < 3000:
                yield c
    return cases


def check(ctx):
    g = lambda *fams: ctx.pick(space.gather(LIB, *fams))
    if ctx.thorough:
        plan = [(x, 6, True) for x in core.chunks(g(space.singles), 2)]
        plan += [(x, 3, True) for x in core.chunks(g(space.core_pairs), 10)]
        plan += [(x, 2, False) for x in core.chunks(g(space.wrapped_singles, space.tiny_triples, space.full_pairs), 40)]
        plan += [(x, 1, False) for x in core.chunks(g(
            space.core_triples, space.wrapped_tiny_pairs, space.shared_sizer_cases, space.deep_cases, space.patched_cases), 120)]
    else:
        plan = [(x, 4, True) for x in core.chunks(g(space.singles), 4)]
        plan += [(x, 2, False) for x in core.chunks(g(space.core_pairs, space.wrapped_singles), 20)]
        plan += [(x, 1, False) for x in core.chunks(g(
            space.full_pairs, space.tiny_triples, space.shared_sizer_cases, space.deep_cases, space.patched_cases), 120)]
    plan = [(x, 1, False) for x in core.chunks(g(space.wide_cases, short_of(space.long_cases)), 3)] + plan
    res = core.parallel(work, plan, ctx.seed)
    res.extra["schemas"] = sum(len(p[0]) for p in plan)
    return res


def main():
    return core.run("C06", check, assumptions=[
        "bounded: encodings of the schema space cut, extended, control words and bytes replaced (one fault; two faults"
        " for single-member schemas), plus every byte string over {0,1,2,255} up to length 5",
        "memory bound: 256 KiB + 4 KiB per input byte",
        "value equality is not required after a greedy tail that does not end aligned (documented exception)"])
