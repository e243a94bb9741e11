"""C01: Python encode emits exactly the documented wire format."""
from .. import core, pyside, ref, schemas, space
from ..pyside import hexs

LIB = space.library()


def work(group):
    res = core.Result()
    for cases, module in schemas.build_python(res, LIB, group):
        for c in cases:
            with core.Watchdog(60):
                explore(res, module, c)
    return res


def explore(res, module, c):
    cls = getattr(module, c.top.name)
    bad = 0
    for v in [space.default_value(c.top)] + list(space.values(c.top)):
        res.states += 1
        try:
            msg = cls()
            if res.states % 2 or v is not None:
                pyside.set_value(msg, c.top, v)
        except Exception as e:
            res.violation("assign:%s" % c.text, "assigning %r raised %s: %s" % (v, type(e).__name__, e),
                          case=c.name, schema=c.text, value=repr(v))
            return
        bad += compare(res, c, v, msg)
        if bad > 2:
            return
    # a fresh message nobody touched
    res.states += 1
    compare(res, c, space.default_value(c.top), cls(), "fresh message: ")


def compare(res, c, v, msg, note=""):
    bad = 0
    for e in "<>":
        want = ref.encode(c.top, v, e)
        res.transitions += 1
        try:
            got = msg.encode(e)
        except Exception as ex:
            got = "%s: %s" % (type(ex).__name__, ex)
        res.traces += 1
        if got != want:
            bad += 1
            res.violation("encode:%s" % c.text, "%sencode('%s') of %r\n got      %s\n expected %s" % (
                note, e, v, hexs(got), hexs(want)), case=c.name, schema=c.text, value=repr(v),
                got=hexs(got), expected=hexs(want), endianness=e)
        else:
            res.outcomes["len%03d" % len(want)] += 1
            if res.traces % 5000 == 1:
                res.sample("%s | %r -> %s" % (c.text, v, hexs(want)))
    return bad


def check(ctx):
    cases = ctx.pick(space.schema_cases(LIB, 2 if ctx.thorough else 1))
    res = core.parallel(work, core.chunks(cases, schemas.CHUNK), ctx.seed)
    res.extra["schemas"] = len(cases)
    return res


def main():
    return core.run("C01", check, assumptions=ASSUMPTIONS)


ASSUMPTIONS = [
    "bounded: member sequences up to length 3 (4 thorough) over the alphabets in mc/space.py, array lengths up to 5",
    "mc/ref.py states docs/encoding.rst correctly"]
