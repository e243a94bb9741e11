"""C02: Python decode inverts encode and consumes exactly the message."""
from .. import core, pyside, ref, schemas, space
from ..pyside import hexs

LIB = space.library()


def work(group):
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, group):
        for c in cases:
            with core.Watchdog(60):
                explore(res, module, c)
    return res


def explore(res, module, c):
    cls = getattr(module, c.top.name)
    bad = 0
    for v in [space.default_value(c.top)] + list(space.values(c.top)):
        res.states += 1
        try:
            msg = cls()
            pyside.set_value(msg, c.top, v)
        except Exception as e:
            res.violation("assign:%s" % c.text, "assigning %r raised %s: %s" % (v, type(e).__name__, e),
                          case=c.name, schema=c.text, value=repr(v))
            return
        if not ref.tail_aligned(c.top, v):
            res.extra["greedy tail followed by padding"] += 1
            continue
        for e in "<>":
            bad += roundtrip(res, c, v, msg, cls(), e)
        if bad > 2:
            return


def roundtrip(res, c, v, msg, target, e):
    res.transitions += 2
    res.traces += 1
    data = None
    try:
        data = msg.encode(e)
        consumed = target.decode(data, e)
        back = pyside.get_value(target, c.top)
        again = target.encode(e)
    except Exception as ex:
        problem = "%s: %s" % (type(ex).__name__, ex)
    else:
        if consumed != len(data):
            problem = "consumed %r of %d bytes" % (consumed, len(data))
        elif not pyside.strict_eq(back, v):
            problem = "decoded value %r" % (back,)
        elif again != data:
            problem = "re-encoded as %s" % hexs(again)
        else:
            res.outcomes["len%03d" % len(data)] += 1
            if res.traces % 9000 == 1:
                res.sample("%s | %r <-> %s" % (c.text, v, hexs(data)))
            return 0
    res.violation("roundtrip:%s" % c.text, "decoding the '%s' encoding %s of %r into a fresh message: %s" % (
        e, hexs(data), v, problem), case=c.name, schema=c.text, value=repr(v), data=hexs(data), endianness=e)
    return 1


def long_cases():
    """Arrays long enough to need every byte of their counters."""
    for tok in ("u8<>", "u16<@u16>", "bytes<>", "bytes<@u32>", "F1<>", "u8<70000>", "u8<...>"):
        yield space.seq_case(LIB, "L" + "".join(ch for ch in tok if ch.isalnum()), [tok])


def long_work(c):
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, [c]):
        for n in (255, 256, 257, 65535, 65536, 65537):
            m = c.top.members[-1]
            if m.sizer and n > c.top.members[0].type.hi:
                continue
            if m.type is ref.BYTES:
                v = {m.name: (bytes(bytearray(range(256))) * 257)[:n]}
            elif m.type.is_composite:
                v = {m.name: [{"f0": i & 255} for i in range(n)]}
            else:
                v = {m.name: [i & 255 for i in range(n)]}
            res.states += 1
            with core.Watchdog(60):
                msg = getattr(module, c.top.name)()
                pyside.set_value(msg, c.top, v)
                one = core.Result()
                roundtrip(one, c, v, msg, getattr(module, c.top.name)(), "<")
            for viol in one.violations:
                viol.key = "long:%s:%d" % (c.text, n)
                viol.what = "an array of %d elements: %s" % (n, viol.what[-120:])
                viol.replay = {"case": c.name, "schema": c.text, "length": n}
            res.merge(one)
    return res


def check(ctx):
    cases = ctx.pick(space.schema_cases(LIB, 2 if ctx.thorough else 1))
    res = core.parallel(work, core.chunks(cases, schemas.CHUNK), ctx.seed)
    res.merge(core.parallel(long_work, ctx.pick(long_cases()), ctx.seed))
    res.extra["schemas"] = len(cases)
    return res


def main():
    return core.run("C02", check, assumptions=ASSUMPTIONS)


ASSUMPTIONS = [
    "bounded: member sequences up to length 3 (4 thorough) over the alphabets in mc/space.py, array lengths up to 5",
    "greedy tails restricted to aligned ends, as the property states",
    "the empty str that an unassigned bytes field reads as (pinned by the repository's tests) counts as empty bytes"]
