"""C18: text rendering is the same in Python and C++ and is not order-sensitive."""
import os

from .. import core, cppside, pyside, ref, space
from ..ref import BYTES, Struct, Union

LIB = space.library()
DRIVER = None


def has_float(t):
    t = t.base()
    if isinstance(t, Struct):
        return any(m.type is not BYTES and has_float(m.type) for m in t.members)
    if isinstance(t, Union):
        return any(has_float(a[1]) for a in t.arms)
    return bool(getattr(t, "is_float", False))


def single_quoted(v):
    """Python's repr of every bytes value inside v uses single quotes."""
    if isinstance(v, bytes):
        return b"'" not in v or b'"' in v
    if isinstance(v, dict):
        return all(single_quoted(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(single_quoted(x) for x in v)
    return True


BYTE_FIELDS = ["bytes<>", "bytes[3]", "bytes<5>", "bytes<@u8>", "FB", "DB", "DB<>", "FB*"]
AFTER = ("u8 u16 u32 u64 i8 i16 i32 i64 E E1 TTU u8* i64* E* u8<> u16<3> i32[2] E<> F2b F2b<> U4 UO D1 Dto "
         "bytes<> FB DB").split()


def byte_cases(lib):
    for i, b in enumerate(BYTE_FIELDS):
        for j, x in enumerate(AFTER):
            yield space.seq_case(lib, "PA%dx%d" % (i, j), [b, x])
            yield space.seq_case(lib, "PB%dx%d" % (i, j), [x, b, x])


ALIASES = [[("%s_A", 1), ("%s_B", 1)], [("%s_A", 2), ("%s_B", 1), ("%s_C", 2)], [("%s_B", 7), ("%s_A", 7), ("%s_C", 0)],
           [("%s_A", 3), ("%s_B", 3), ("%s_C", 3), ("%s_D", 5)]]


def alias_cases(lib):
    """Enumerators sharing a value: which of the names is shown is open, but both sides show the same one."""
    for i, members in enumerate(ALIASES):
        for j, tokens in enumerate(["%s", "u8 %s", "%s*", "%s[2]", "%s<> u8", "%s<3> i8", "%s<...>", "%s bytes<> %s"]):
            sc = space.Scope(lib)
            name = "A%dx%d" % (i, j)
            enum = "E" + name
            sc.add(ref.Enum(enum, [(n % enum, v) for n, v in members]))
            top = sc.struct(name, tokens.replace("%s", enum).split())
            yield space.Case(name, sc, top, "%s with enum %s" % (tokens, members))


def float_cases(lib):
    """Floats themselves are shown as each language likes; the fields after them are not to be touched."""
    for i, f in enumerate(["float", "double", "float<>", "double[2]", "float*"]):
        for j, x in enumerate(AFTER):
            yield space.seq_case(lib, "R%dx%d" % (i, j), [f, x])


def masked(text, c):
    """The text without the values of the floats of the message itself."""
    if c.name[0] != "R":
        return text
    floats = set(m.name for m in c.top.members if getattr(m.type.base(), "is_float", False))
    return "\n".join(k + colon if k in floats else k + colon + x for k, colon, x in
                     (line.partition(": ") for line in text.split("\n")))


def shared_names(c):
    """The first name of a value for every other name of the same value."""
    out = {}
    for d in c.decls:
        if isinstance(d, ref.Enum):
            for n, v in d.members:
                if d.name_of(v) != n:
                    out[n] = d.name_of(v)
    return out


def unaliased(text, shared):
    return "\n".join(k + ": " + shared.get(x, x) if colon else k for k, colon, x in
                     (line.partition(": ") for line in text.split("\n"))) if shared else text


def byte_strings():
    """Every single byte; every pair and triple over the characters that need care."""
    for b in range(256):
        yield bytes(bytearray([b]))
    special = b"'\"\\\n\x00\x7fA\xff"
    for a in special:
        for b in special:
            yield bytes(bytearray([a, b]))
            yield bytes(bytearray([a, b, 65]))
            yield bytes(bytearray([48, a, b]))


def put_bytes(t, v, s):
    """The same value with s (padded, cut) in every bytes field."""
    t = t.base()
    if isinstance(t, Union):
        return (v[0], put_bytes(t.arm(v[0])[1], v[1], s))
    if not isinstance(t, Struct):
        return v
    out = {}
    for m in t.members:
        if m.name in t.sizers:
            continue
        x = v[m.name]
        if m.type is BYTES:
            x = s.ljust(m.n, b"\0")[:m.n] if m.kind == "fixed" else s[:m.n] if m.kind in ("lim", "xlim") else s
        elif m.is_array:
            x = [put_bytes(m.type, e, s) for e in x]
        elif x is not None:
            x = put_bytes(m.type, x, s)
        out[m.name] = x
    return out


def values(c):
    if c.name.startswith("P"):
        vals = list(space.values(c.top))
        vals = [max(vals, key=lambda v: len(ref.encode(c.top, v, "<")))] + vals[:1]
        for s in byte_strings():
            yield put_bytes(c.top, vals[0], s)
        for v in vals:
            yield v
    else:
        for v in space.values(c.top):
            yield v


def work(group):
    res = core.Result()
    for cases, exe, scratch in cppside.build_groups(res, LIB, group, DRIVER, san=[], outputs=("python",)):
        with scratch:
            try:
                module = pyside.load_module(os.path.join(scratch.path, "schema.py"))
            except Exception as e:
                res.violation("import", "generated Python module does not import: %s: %s" % (type(e).__name__, e),
                              case=cases[0].name, schema=cases[0].text)
                continue
            explore(res, cases, exe, module)
    return res


def python_text(cls, c, v):
    with core.Watchdog(60):
        msg = cls()
        pyside.set_value(msg, c.top, v)
        first = str(msg)
        return first, str(msg)


def explore(res, cases, exe, module):
    requests, context = [], []
    bad = {}

    def complain(c, v, problem):
        if bad.setdefault(c.name, 0) < 2:
            bad[c.name] += 1
            res.violation("text:%s" % c.text, problem, case=c.name, schema=c.text, value=repr(v))

    for i, c in enumerate(cases):
        cls = getattr(module, c.top.name)
        shared = shared_names(c)
        for v in values(c):
            if not single_quoted(v) or not ref.tail_aligned(c.top, v):
                continue
            res.states += 1
            want = masked(ref.text(c.top, v), c)
            res.transitions += 2
            try:
                got, again = [masked(text, c) for text in python_text(cls, c, v)]
            except (Exception, core.Hang) as e:
                got = again = "%s: %s" % (type(e).__name__, e)
            if shared and got == again and unaliased(got, shared) == want:
                want = got
            if got != want or again != want:
                complain(c, v, "str() of %r in Python\n got      %r\n expected %r" % (v, got if got != want else again, want))
            requests.append("P %d l %s" % (i, cppside.hexarg(ref.encode(c.top, v, "<"))))
            context.append((c, v, want))
    for (c, v, want), reply in zip(context, cppside.converse(exe, requests)):
        if reply == "SKIPPED":
            continue
        res.transitions += 2
        res.traces += 1
        parts = reply.split(" ")
        if parts[0] == "0":
            res.outcomes["value not reached by decoding"] += 1
            continue
        got = cppside.unhex(parts[-1]).decode("latin1") if parts[0] == "1" else reply
        got = masked(got, c)
        if got != want:
            complain(c, v, "print() of %r in C++\n got      %r\n expected %r" % (v, got, want))
        else:
            res.outcomes["lines%02d" % want.count("\n")] += 1
            if res.traces % 7000 == 1:
                res.sample("%s | %r" % (c.text, want))


def check(ctx):
    global DRIVER
    cases = [c for c in ctx.pick(cases_for(ctx)) if cppside.cpp_ok(c) and (c.name[0] == "R" or not has_float(c.top))]
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=[])
        res = core.parallel(work, core.chunks(cases, 100), ctx.seed)
    res.extra["schemas"] = len(cases)
    return res


def cases_for(ctx):
    own = list(byte_cases(LIB)) + list(alias_cases(LIB)) + list(float_cases(LIB))
    if ctx.thorough:
        return own + list(space.schema_cases(LIB, 1, shared=False))
    return own + list(space.gather(LIB, space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples,
                                   space.wrapped_tiny_pairs, space.large_cases))


def main():
    return core.run("C18", check, assumptions=[
        "bounded: the schema and value space of mc/space.py without the texts of floats, plus bytes fields next to every kind of"
        " field holding every single byte and every pair of special characters",
        "values whose bytes Python renders in double quotes are excluded"])
