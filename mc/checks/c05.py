"""C05: get_byte_size equals the bytes written by the C++ encoders, which stay in bounds."""
from .. import core, cppside, ref, space
from ..pyside import hexs

LIB = space.library()
DRIVER = None
SAN = ["-fsanitize=address"]
E = {"l": "<", "b": ">", "n": "<"}


def work(group):
    res = core.Result()
    for cases, exe, scratch in cppside.build_groups(res, LIB, group, DRIVER, san=SAN, over=cppside.overfill_source):
        with scratch:
            explore(res, cases, exe)
    return res


def explore(res, cases, exe):
    requests, context = [], []

    def ask(op, i, e, c, v, data):
        requests.append("%s %d %s %s" % (op, i, e, cppside.hexarg(data)))
        context.append((op, e, c, v, data))

    for i, c in enumerate(cases):
        ask("C", i, "n", c, None, b"")
        for k, v in enumerate(space.values(c.top)):
            res.states += 1
            e = "lbn"[k % 3]
            data = ref.encode(c.top, v, E[e])
            ask("R", i, e, c, v, data)
            if cppside.has_limited(c.top):
                res.states += 1
                ask("O", i, e, c, v, data)
    bad = {}
    for (op, e, c, v, data), reply in zip(context, cppside.converse(exe, requests)):
        res.transitions += 2
        res.traces += 1
        problem = judge(res, op, c, data, reply)
        if problem and bad.setdefault(c.name, 0) < 2:
            bad[c.name] += 1
            res.violation("size:%s" % c.text, "%s %s endian %r: %s" % (
                {"C": "fresh message", "R": "message", "O": "message with overfull limited arrays"}[op], e, v, problem),
                case=c.name, schema=c.text, data=hexs(data), endianness=e, value=repr(v))
        elif res.traces % 9000 == 1:
            res.sample("%s | %s %s -> %s" % (c.text, op, hexs(data), reply))


def judge(res, op, c, data, reply):
    if reply == "SKIPPED":
        return None
    parts = reply.split(" ")
    if parts[0] == "CRASH":
        return reply
    if op == "C":
        fixed, parts = int(parts[0]), parts[1:]
        want = c.top.size if c.top.size is not None else -1
        if fixed != want:
            return "encoded_byte_size %d instead of %d" % (fixed, want)
    else:
        if parts[0] != "1":
            # what C++ refuses to decode is the subject of C03 and C07
            res.outcomes["value not reached by decoding"] += 1
            return None
        parts = parts[2:]
    size, written, length, same = [int(x) for x in parts[:4]]
    res.outcomes["size%03d" % size] += 1
    if not size == written == length:
        return "get_byte_size %d, pointer encode wrote %d, vector has %d" % (size, written, length)
    if not same:
        return "pointer encode and vector encode differ"
    if c.top.size is not None and size != c.top.size:
        return "get_byte_size %d of a fixed type of size %d" % (size, c.top.size)
    return None


NARROW = [("u8", 255), ("u8", 256), ("u8", 300), ("i8", 127), ("i8", 128), ("i8", 200), ("u16", 65535),
          ("u16", 65536), ("u16", 65600), ("i16", 32767), ("i16", 32768)]


def narrow(res):
    """Arrays longer than their counter can tell."""
    cases = [space.seq_case(LIB, "NW%02d" % i, ["u32<@%s>" % s]) for i, (s, _) in enumerate(NARROW)]

    def source(lib, group):
        lines = ["namespace verif {"]
        for (_, n), c in zip(NARROW, group):
            lines.append("template <> struct overfill<%s> { static bool apply(%s& x) { x.f0.resize(%d); return true; } };"
                         % (c.top.name, c.top.name, n))
        return lines + ["}"]

    for group, exe, scratch in cppside.build_groups(res, LIB, cases, DRIVER, san=SAN, over=source):
        with scratch:
            for i, c in enumerate(group):
                s, n = NARROW[cases.index(c)]
                data = ref.encode(c.top, {"f0": []}, "<")
                reply, = cppside.converse(exe, ["O %d l %s" % (i, cppside.hexarg(data))])
                res.states += 1
                res.transitions += 2
                res.traces += 1
                problem = judge(res, "O", c, data, reply)
                if problem:
                    problem = problem.split(" on address")[0]
                    res.violation("narrow:%s %d" % (s, n), "array of %d elements counted by %s: %s" % (n, s, problem),
                                  case=c.name, schema=c.text, length=n)


def check(ctx):
    global DRIVER
    cases = [c for c in ctx.pick(cases_for(ctx)) if cppside.cpp_ok(c)]
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=SAN)
        res = core.parallel(work, core.chunks(cases, 120), ctx.seed)
        if not ctx.only:
            narrow(res)
    res.extra["schemas"] = len(cases)
    return res


def cases_for(ctx):
    if ctx.thorough:
        return space.schema_cases(LIB, 1, shared=False)
    return space.gather(LIB, space.singles, space.core_pairs, space.wrapped_singles, space.tiny_triples,
                        space.wrapped_tiny_pairs, space.large_cases)


def main():
    return core.run("C05", check, assumptions=["bounded: the schema and value space of mc/space.py",
                                               "buffers aligned like malloc aligns them"])
