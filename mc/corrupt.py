"""Enumerates corruptions of a canonical encoding: every cut, every extension,
every replacement of a control word, every byte overwritten."""
import struct

CONTROL = ("counter", "flag", "disc", "enum")
FMT = {1: "B", 2: "H", 4: "I", 8: "Q"}


def control_values(size, old):
    top = (1 << (8 * size)) - 1
    vals = [0, 1, 2, 3, 4, old + 1, old - 1, old + 2, 8, 16, 255, 256, 65535, 65536, 65537, 1 << 24,
            (top >> 1), (top >> 1) + 1, top, top - 1, top // 8 + 1, top // 2 // 8 + 1]
    if size == 8:
        vals += [1 << 32, (1 << 32) + 1, 1 << 61, (1 << 61) + 1]
    seen = set()
    for v in vals:
        if 0 <= v <= top and v != old and v not in seen:
            seen.add(v)
            yield v


def some(items, many):
    """All of them; of very many the first, the last and some between."""
    if len(items) <= many:
        return items
    return [x for i, x in enumerate(items) if i < 12 or i >= len(items) - 12 or i % (len(items) // 20) == 0]


def controls(data, spans, endianness):
    for off, ln, what in some([s for s in spans if s[2] in CONTROL], 100):
        fmt = endianness + FMT[ln]
        old, = struct.unpack(fmt, data[off:off + ln])
        for v in control_values(ln, old):
            yield data[:off] + struct.pack(fmt, v) + data[off + ln:]


def prefixes(data):
    for i in some(range(len(data)), 3000):
        yield data[:i]


def extensions(data):
    for n in (1, 2, 3, 4, 7, 8):
        for fill in (b"\0", b"\1", b"\xff"):
            yield data + fill * n


def overwrites(data):
    for i in range(len(data)):
        for v in (0, 1, 0x7f, 0x80, 0xff):
            if data[i] != v:
                yield data[:i] + bytes(bytearray([v])) + data[i + 1:]


def single(data, spans, endianness):
    """Every corruption with one fault."""
    for d in prefixes(data):
        yield "cut", d
    for d in extensions(data):
        yield "extend", d
    for d in controls(data, spans, endianness):
        yield "control", d
    for d in overwrites(data):
        yield "byte", d


def double(data, spans, endianness):
    """Every control word corruption combined with every cut, and with every other control word."""
    for d in controls(data, spans, endianness):
        for i in range(len(data)):
            yield "control+cut", d[:i]
    ctl = [s for s in spans if s[2] in CONTROL]
    for s in ctl:
        for d in controls(data, [s], endianness):
            for d2 in controls(d, [x for x in ctl if x[0] > s[0]], endianness):
                yield "control+control", d2


def all_strings(alphabet, length):
    """Every byte string over the alphabet up to a length."""
    level = [b""]
    yield b""
    for _ in range(length):
        level = [s + bytes(bytearray([a])) for s in level for a in alphabet]
        for s in level:
            yield s
