"""The bounded schema space and the bounded value space.

A member is written as a token: T, T*, T[n], T<>, T<n>, T<...>, T<@S> (an array
of T with its own sizer field of type S placed right before it), T<@=name> (an
array sharing an earlier sizer), T<n@S> and T<n@=name> (limited arrays with such
sizers, which the language can only have with the help of a patch). A case is a list of declarations on top of the
library plus the name of the type to exercise.
"""
import itertools
import re

from . import ref
from .ref import BYTES, Enum, Member, SCALARS, Struct, Typedef, Union

TOKEN = re.compile(r"^(\w+)(\*|\[(\d+)\]|<>|<(\d+)>|<\.\.\.>|<@(\w+)>|<@=(\w+)>|<(\d+)@(=?)(\w+)>)?$")


class Scope(object):
    def __init__(self, parent=None):
        self.parent = parent
        self.names = {}
        self.decls = []

    def get(self, name):
        if name in self.names:
            return self.names[name]
        if self.parent:
            return self.parent.get(name)
        if name == "bytes":
            return BYTES
        return SCALARS[name]

    def add(self, decl):
        self.names[decl.name] = decl
        self.decls.append(decl)
        return decl

    def members(self, tokens):
        out = []
        for i, tok in enumerate(tokens):
            nm = "f%d" % i
            if ":" in tok:
                nm, tok = tok.split(":")
            g = TOKEN.match(tok)
            t = self.get(g.group(1))
            suf = g.group(2) or ""
            if suf == "":
                out.append(Member(nm, t))
            elif suf == "*":
                out.append(Member(nm, t, "opt"))
            elif g.group(3):
                out.append(Member(nm, t, "fixed", int(g.group(3))))
            elif suf == "<>":
                out.append(Member(nm, t, "dyn"))
            elif g.group(4):
                out.append(Member(nm, t, "lim", int(g.group(4))))
            elif suf == "<...>":
                out.append(Member(nm, t, "greedy"))
            elif g.group(5):
                out.append(Member(nm + "_n", self.get(g.group(5))))
                out.append(Member(nm, t, "ext", sizer=nm + "_n"))
            elif g.group(7):
                sizer = g.group(9) if g.group(8) else nm + "_n"
                if not g.group(8):
                    out.append(Member(sizer, self.get(g.group(9))))
                out.append(Member(nm, t, "xlim", int(g.group(7)), sizer))
            else:
                out.append(Member(nm, t, "ext", sizer=g.group(6)))
        return out

    def struct(self, name, tokens):
        if isinstance(tokens, str):
            tokens = tokens.split()
        return self.add(Struct(name, self.members(tokens)))

    def union(self, name, arms):
        return self.add(Union(name, [(d, self.get(t), "a%d" % i) for i, (d, t) in enumerate(arms)]))


def library():
    s = Scope()
    s.add(Enum("E", [("E_X", 3), ("E_Y", 70000), ("E_Z", 0)]))          # no enumerator equal to 1
    s.add(Enum("E1", [("E1_A", 1), ("E1_B", 4294967295), ("E1_C", 2)]))
    s.add(Typedef("TU", SCALARS["u16"]))
    s.add(Typedef("TTU", s.get("TU")))
    s.add(Typedef("TE", s.get("E")))
    s.struct("F1", "u8")
    s.struct("F3", "u8[3]")
    s.struct("F2", "u8 u16")
    s.struct("F2b", "u16 u8")
    s.struct("F4", "u32 u8")
    s.struct("F8", "u8 u64")
    s.struct("F8b", "u64 u8")
    s.struct("FO", "u8*")
    s.struct("FO2", "u16* u8")
    s.struct("FO8", "u64* u8")
    s.struct("FL", "u16<3>")
    s.struct("FL8", "u8 u64<2>")
    s.struct("FB", "bytes<3>")
    s.struct("FE", "E u8")
    s.union("U4", [(1, "u8"), (2, "F2b"), (5, "u32")])
    s.union("U8", [(0, "u64"), (7, "u16"), (9, "F3")])
    s.union("UO", [(4294967295, "FO2"), (2, "E"), (3, "U4")])
    s.struct("F5", "u8[5]")
    s.struct("F12", "u32[3]")
    s.union("U5", [(1, "u32"), (2, "F5")])
    s.union("U12", [(2, "F12"), (1, "u64")])
    s.struct("FU", "U4 u8")
    s.add(Typedef("TS", s.get("F2b")))
    s.struct("D1", "u8<>")
    s.struct("D1e", "u8<@u8>")
    s.struct("D2e", "u8<@u16>")
    s.struct("D8", "u64<>")
    s.struct("DB", "bytes<>")
    s.struct("Dt1", "u8<> u8")
    s.struct("Dt8", "u8<> u64")
    s.struct("Dto", "u16<> u8*")
    s.struct("DN", "D1e u8")
    s.struct("DD", "D1<>")
    s.add(Typedef("TD", s.get("D1e")))
    s.struct("G1", "u8<...>")
    s.struct("G4", "u32 u16<...>")
    s.struct("GD", "u8<> u8<...>")
    s.struct("GS", "F2b<...>")
    s.struct("GB", "bytes<...>")
    s.struct("GDD", "D1<...>")
    s.struct("GN", "u8 G1")
    return s


FULL_FIXED = """
u8 u16 u32 u64 i8 i16 i32 i64 float double E E1 TTU TE TS
F1 F3 F2 F2b F4 F8 F8b FO FO2 FO8 FL FL8 FB FE FU U4 U8 UO U5 U12 F5
u8* u16* u32* u64* i8* i64* float* double* E* E1* TTU* TE* F1* F3* F2b* F8* FO* FO8* FL* FL8* FB* U4* U8* U12* TS*
u8[3] u16[2] u64[2] E[2] TTU[3] F3[2] F8b[2] U4[2] U12[2] FO[2] bytes[3] float[2]
u8<3> u16<3> u64<2> E<2> F3<2> F2b<2> U8<2> U5<2> FL<2> bytes<5> i16<2>
""".split()
FULL_DYN = """
D1 D1e D2e D8 DB Dt1 Dt8 Dto DN DD TD
u8<> u16<> u32<> u64<> E<> F3<> F2b<> F8<> FO<> U4<> U8<> D1<> D1e<> Dt1<> Dt8<> Dto<> DD<> bytes<> double<> TTU<> TS<>
u8<@u8> u16<@u8> u64<@u16> u32<@u64> D1<@u16> bytes<@u8> u8<@i8> u16<@i32> F2b<@TTU> E<@i64>
""".split()
FULL_UNL = """
G1 G4 GD GS GB GDD GN
u8<...> u16<...> u64<...> E<...> F3<...> F2b<...> FO<...> U8<...> D1<...> D1e<...> Dt8<...> Dto<...> bytes<...>
""".split()
FULL = FULL_FIXED + FULL_DYN + FULL_UNL

# one representative per (role, alignment): used for longer sequences
CORE = """u8 u16 u64 u8* u16* u64* F3 F2b FO U8 u8<3> u16[3] u8<> u16<> u64<> u16<@u8> D1 D1e Dt8 Dto bytes<>""".split()
CORE_LAST = CORE + ["u8<...>", "u16<...>", "Dt8<...>", "GD"]
TINY = "u8 u32 u64 u8* F2b u8<> u16<@u8> D1e Dt8".split()
TINY_LAST = TINY + ["u16<...>"]
SMALL = "u8 u16 u64 u8* u64* FO U8 u8<3> u8<> u64<> u16<@u8> D1 D1e Dt8 Dto".split()
SMALL_LAST = SMALL + ["u16<...>", "Dt8<...>"]


class Case(object):
    """One message type: top is exercised, decls are rendered after the library."""

    def __init__(self, name, scope, top, text):
        self.name, self.scope, self.top, self.text = name, scope, top, text

    @property
    def decls(self):
        return self.scope.decls


def seq_case(lib, name, tokens):
    sc = Scope(lib)
    top = sc.struct(name, list(tokens))
    return Case(name, sc, top, " ".join(tokens))


def is_unl(tok):
    return tok in _UNL


_UNL = set(FULL_UNL)

WRAPS = [  # (text, legal when the wrapped struct has at most this stiffness)
    ("{S}", ref.UNLIMITED), ("u8 {S}", ref.UNLIMITED), ("{S} u8", ref.DYNAMIC), ("u8 {S} u64", ref.DYNAMIC),
    ("{S}<> u8", ref.DYNAMIC), ("u8 {S}<...>", ref.DYNAMIC), ("u16 {S}<@u8> u16", ref.DYNAMIC),
    ("u8 {S}* u8", ref.FIXED), ("u8 {S}[2] u8", ref.FIXED), ("u8 {S}<2> u8", ref.FIXED),
    ("union", ref.FIXED), ("union8", ref.FIXED)]


def wrap_cases(lib, name, tokens):
    """The struct made of tokens in every nesting context that is legal for it."""
    for k, (wrap, most) in enumerate(WRAPS):
        sc = Scope(lib)
        inner = sc.struct("%si%d" % (name, k), list(tokens))
        if inner.stiffness > most:
            continue
        wname = "%sw%d" % (name, k)
        if wrap == "union":
            top = sc.union(wname, [(3, "u8"), (1, inner.name)])
        elif wrap == "union8":
            top = sc.union(wname, [(3, "u64"), (1, inner.name)])
        else:
            top = sc.struct(wname, wrap.replace("{S}", inner.name).split())
        yield Case(wname, sc, top, "%s with S=[%s]" % (wrap.replace(inner.name, "S"), " ".join(tokens)))


def shared_sizer_cases(lib):
    """Several arrays counted by one sizer, with other fields in between."""
    n = 0
    for sizer in ("u8", "u16", "u32", "i8"):
        for a, b in itertools.product(("u8", "u16", "u64", "D1e", "bytes"), repeat=2):
            for before, mid in itertools.product(([], ["u8"], ["u64"]), ([], ["u8"], ["u64"], ["u8*"], ["u8<>"])):
                if before and mid and before != mid:
                    continue
                n += 1
                toks = ["n:" + sizer] + before + [a + "<@=n>"] + mid + [b + "<@=n>"]
                toks = [t if ":" in t else "f%d:%s" % (i, t) for i, t in enumerate(toks)]
                yield seq_case(lib, "SX%d" % n, toks)


def sequences(alphabet, last, length):
    for head in itertools.product(alphabet, repeat=length - 1):
        for tail in last:
            yield head + (tail,)


HEADS = [t for t in FULL if not is_unl(t)]


def family(lib, prefix, alphabet, last, length):
    """All member sequences of one length; names are stable per family."""
    for k, seq in enumerate(sequences(alphabet, last, length)):
        yield seq_case(lib, "%s%d" % (prefix, k), seq)


def wrapped(lib, prefix, seqs):
    for k, seq in enumerate(seqs):
        for c in wrap_cases(lib, "%s%d" % (prefix, k), seq):
            yield c


def singles(lib):
    return family(lib, "SA", [], FULL, 1)


def core_pairs(lib):
    return family(lib, "SB", CORE, CORE_LAST, 2)


def full_pairs(lib):
    return family(lib, "SC", HEADS, FULL, 2)


def tiny_triples(lib):
    return family(lib, "SD", TINY, TINY_LAST, 3)


def core_triples(lib):
    return family(lib, "ST", CORE, CORE_LAST, 3)


def tiny_quads(lib):
    return family(lib, "SQ", TINY, TINY_LAST, 4)


def core_quads(lib):
    return family(lib, "SR", SMALL, SMALL_LAST, 4)


def wrapped_singles(lib):
    return wrapped(lib, "SV", [[t] for t in FULL])


def wrapped_tiny_pairs(lib):
    return wrapped(lib, "SW", sequences(TINY, TINY_LAST, 2))


def wrapped_core_pairs(lib):
    return wrapped(lib, "SY", sequences(CORE, CORE_LAST, 2))


LONG = (127, 128, 255, 256, 257, 300)
LONG_ARRAYS = [("u8<>", LONG), ("u16<>", LONG), ("u64<>", LONG), ("E<>", LONG), ("bytes<>", LONG), ("bytes<@u8>", (127, 128, 255)),
               ("u16<@i8>", (126, 127)), ("u32<@u16>", LONG), ("F2b<>", (255, 256, 257)), ("D1e<>", (255, 256, 257)), ("U4<>", (256,)),
               ("u8<300>", LONG), ("F1<300>", (256, 300)), ("bytes<300>", LONG), ("u8[300]", (300,)), ("bytes[300]", (300,)),
               ("F1[260]", (260,)), ("u8<...>", LONG), ("F2b<...>", (256,)), ("bytes<...>", LONG)]

HUGE = (32767, 32768, 65535, 65536)      # decoding of more is not offered in Python
HUGE_ARRAYS = [("u8<>", HUGE), ("u16<@u16>", HUGE[:3]), ("u32<>", HUGE[2:]), ("u8<@i16>", HUGE[:1]), ("bytes<>", HUGE), ("bytes<@u16>", HUGE[:3]),
               ("F1<>", HUGE[2:]), ("u8<65536>", HUGE), ("bytes<65536>", HUGE[2:]), ("u8[65536]", HUGE[3:]), ("bytes[65537]", (65537,)),
               ("u8<...>", HUGE), ("bytes<...>", HUGE)]


def long_cases(lib):
    """Arrays whose lengths need more than a byte, or more than two: chosen values only."""
    n = 0
    for tok, counts in LONG_ARRAYS + HUGE_ARRAYS:
        around = list(itertools.product(([], ["u8"]), ([],) if is_unl(tok) else ([], ["u8"], ["u64"])))
        for head, tail in around[::len(around) - 1] if (tok, counts) in HUGE_ARRAYS else around:
            n += 1
            c = seq_case(lib, "SZ%d" % n, head + [tok] + tail)
            array = [m for m in c.top.members if m.is_array or m.type is BYTES][0]
            sub = [] if array.type is BYTES else shapes(array.type)
            c.top.chosen = []
            for k in counts:
                rotor = Rotor(k)
                v = dict((m.name, leaf(m.type, rotor)) for m in c.top.members if m is not array and m.name not in c.top.sizers)
                v[array.name] = _array_shape(array, k, sub)(rotor)
                c.top.chosen.append(v)
            yield c


def wide_cases(lib):
    """Structs and unions of many members."""
    n = 200
    for k in range(4):
        for last in ([], ["u8<...>"], ["u64<...>"], ["bytes<...>"]):
            n += 1
            c = seq_case(lib, "SZ%d" % n, HEADS[k::4] + last)
            c.top.chosen = [sh(Rotor(i)) for i, sh in enumerate(shapes(c.top))]
            c.text = "wide " + c.text
            yield c
    fixed = [t for t in FULL_FIXED if t.isalnum()]
    for k, first in itertools.product((1, 7), (0, 200, 0xfffffff0 - 7 * len(fixed))):
        n += 1
        sc = Scope(lib)
        top = sc.union("SZ%d" % n, [(first + k * i, t) for i, t in enumerate(fixed)])
        yield Case("SZ%d" % n, sc, top, "union of %d arms from %d in steps of %d" % (len(fixed), first, k))


def deep_cases(lib):
    """Structs and unions in one another, nine levels of them (four where every level doubles)."""
    n = 300
    for tok in ("u8", "u64", "u8*", "u64*", "u16<2>", "bytes[3]", "U4", "u8<>", "u16<>", "u64<>", "bytes<>", "u8<...>", "u16<...>"):
        for wrap in ("u8 {S}", "{S} u8", "u16 {S} u64", "{S}*", "u8 {S}[2]", "{S}<2>", "{S}<> u8", "union"):
            n += 1
            sc = Scope(lib)
            inner = sc.struct("SZ%ddeep0" % n, [tok])
            if wrap == "union" or wrap[-1] in "*]" or "<2>" in wrap:
                if inner.stiffness != ref.FIXED:
                    continue
            elif inner.stiffness == ref.UNLIMITED and not wrap.endswith("{S}"):
                continue
            for level in range(1, 4 if "2" in wrap else 9):
                name = "SZ%ddeep%d" % (n, level)
                if wrap == "union":
                    inner = sc.union(name, [(level, "u8"), (99, inner.name)])
                else:
                    inner = sc.struct(name, wrap.replace("{S}", inner.name).split())
            inner.chosen = [sh(Rotor(i)) for i, sh in enumerate(shapes(inner))]
            yield Case(inner.name, sc, inner, "deep %s around %s" % (wrap, tok))


def patched_cases(lib):
    """Limited arrays with sizers of other types and at other places than the language gives them; shared sizers too."""
    elements = ["u8", "u16", "u64", "E", "F2b", "U8", "bytes"]
    rows = [["%s<3@%s>" % (e, s)] + tail for e in elements for s in ("u8", "u16", "u32", "u64", "i8", "i64", "TTU") for tail in ([], ["u8"], ["u64"])]
    sizers = ["u8", "u16", "u32", "u64", "i8", "i32"]
    for i, e in enumerate(elements):
        for j, (mid, tail) in enumerate(itertools.product(([], ["u8"], ["u64"], ["u8<>"], ["D1e"], ["u8*"], ["u16<2>", "u8<>"]),
                                                          ([], ["u8"], ["u64"], ["u8<>"], ["u16<...>"], ["u8", "u8<>", "u8"]))):
            rows.append(["n:" + sizers[(i + j) % 6]] + mid + [e + "<3@=n>"] + tail)
    for one, mid, other in itertools.product(("u8<3@=n>", "u16<2@=n>", "F2b<2@=n>", "u16<@=n>", "D1e<@=n>"), ([], ["u8"], ["u8<>"], ["u64"]),
                                             ("u8<2@=n>", "u64<3@=n>", "U4<2@=n>", "u8<@=n>")):
        if "<@" not in one or "<@" not in other:
            rows.append(["n:" + sizers[len(rows) % 6]] + [one] + mid + [other])
    for k, row in enumerate(rows):
        yield seq_case(lib, "SP%d" % k, [t if ":" in t else "f%d:%s" % (i, t) for i, t in enumerate(row)])
    nested = [["u8<3@u8>"], ["n:u16", "f1:u8", "f2:u16<2@=n>", "f3:u8"], ["n:u8", "f1:u64<2@=n>"], ["n:u8", "f1:u8<>", "f2:u16<3@=n>"],
              ["n:u16", "f1:u8<2@=n>", "f2:F2b<2@=n>"], ["n:u32", "f1:bytes<3@=n>", "f2:u16*"]]
    for c in wrapped(lib, "SPw", nested):
        yield c


def large_cases(lib):
    return gather(lib, long_cases, wide_cases, deep_cases, patched_cases)


def gather(lib, *families):
    out = []
    for f in families:
        out += list(f(lib))
    return out


def schema_cases(lib, level, shared=True):
    """The families of a level, simplest first."""
    fams = [singles, core_pairs if level == 0 else full_pairs, wrapped_singles]
    if level == 0:
        fams += [tiny_triples]
    if level >= 1:
        fams += [core_triples, wrapped_tiny_pairs if level == 1 else wrapped_core_pairs]
    if level >= 2:
        fams += [tiny_quads, core_quads]
    if shared:
        fams.append(shared_sizer_cases)
    fams.append(large_cases)
    return gather(lib, *fams)


# --------------------------------------------------------------------------
# values

INT_DOMAIN = {
    1: [0x12, 0xff, 0x7f, 0x00, 0x80, 0x27],
    2: [0x1234, 0xffff, 0x00ff, 0x0000, 0x8000, 0x7fff],
    4: [0x12345678, 0xffffffff, 0x000000ff, 0, 0x80000000, 0x7fffffff],
    8: [0x123456789abcdef0, 0xffffffffffffffff, 0x00000000000000ff, 0, 0x8000000000000000, 0x7fffffffffffffff],
}
FLOAT_DOMAIN = {4: [1.5, -2.25, 0.0, 3.4028234663852886e+38, float("inf"), 1.401298464324817e-45],
                8: [1.1, -2.25, 0.0, 1.7976931348623157e+308, float("-inf"), 5e-324]}
BYTE_STRINGS = b"\x01ab\x00c\xffde"


class Rotor(object):
    """Deterministic source of leaf values: each leaf takes the next of its domain."""

    def __init__(self, start=0):
        self.k = start

    def next(self):
        self.k += 1
        return self.k - 1


def scalar_domain(t):
    t = t.base()
    if isinstance(t, Enum):
        return [v for _, v in t.members]
    if t.is_float:
        return FLOAT_DOMAIN[t.size]
    out = []
    for v in INT_DOMAIN[t.size]:
        out.append(v if v <= t.hi else v - (1 << (8 * t.size)))
    return out


def lengths(t, limit=None):
    if limit is not None:
        return sorted(set([0, 1, limit]))
    if t.base().is_composite:
        return [0, 1, 2]
    return {1: [0, 1, 2, 4, 5], 2: [0, 1, 2, 3], 4: [0, 1, 2], 8: [0, 1, 2]}[t.size]


def leaf(t, rotor):
    t = t.base()
    dom = scalar_domain(t)
    return dom[rotor.next() % len(dom)]


def shapes(t, top=False):
    """Shape functions of a type: each maps a rotor to a value.

    The top-level struct takes the product of its members' shapes, nested
    structs take their default shape and every single-member variation of it.
    """
    t = t.base()
    if not t.is_composite:
        return [lambda r: leaf(t, r)]
    if isinstance(t, Union):
        out = []
        for d, at, name in t.arms:
            for sh in shapes(at):
                out.append(lambda r, sh=sh, name=name: (name, sh(r)))
        return out
    per = [(m.name, member_shapes(m)) for m in t.members if m.name not in t.sizers]
    groups = {}
    for m in t.members:
        if m.kind in ("ext", "xlim"):
            groups.setdefault(m.sizer, []).append(m.name)

    def build(choice):
        def make(r):
            return dict((n, sh(r)) for n, sh in choice)
        return make

    names = [n for n, _ in per]
    lists = [s for _, s in per]
    if top:
        combos = itertools.product(*[range(len(x)) for x in lists])
    else:
        dflt = tuple(min(1, len(x) - 1) for x in lists)
        combos = [dflt] + [dflt[:i] + (j,) + dflt[i + 1:] for i, x in enumerate(lists)
                           for j in range(len(x)) if j != dflt[i]]
    out = []
    shared = [[names.index(n) for n in g] for g in groups.values() if len(g) > 1]
    for combo in combos:
        # arrays sharing a sizer have equal lengths
        if any(len(set(lists[i][combo[i]].length for i in g)) > 1 for g in shared):
            continue
        out.append(build([(n, lists[i][combo[i]]) for i, n in enumerate(names)]))
    return out


def _array_shape(m, n, sub):
    if m.type is BYTES:
        def make(r):
            k = r.next()
            return bytes(bytearray(BYTE_STRINGS[(k + i) % len(BYTE_STRINGS)] for i in range(n)))
    else:
        def make(r):
            return [sub[(r.next() + i) % len(sub)](r) for i in range(n)]
    make.length = n
    return make


def member_shapes(m):
    if m.kind == "plain":
        return shapes(m.type)
    if m.kind == "opt":
        return [lambda r: None] + shapes(m.type)
    sub = [] if m.type is BYTES else shapes(m.type)
    if m.kind == "fixed":
        return [_array_shape(m, m.n, sub)]
    if m.kind in ("lim", "xlim"):
        return [_array_shape(m, n, sub) for n in lengths(m.type, m.n)]
    if m.kind == "ext" or m.kind in ("dyn", "greedy"):
        ls = [0, 1, 2, 4, 5] if m.kind == "ext" and m.type.size == 1 else lengths(m.type)
        if m.kind == "ext":
            ls = sorted(set(ls) | set([0, 1, 2]))
        return [_array_shape(m, n, sub) for n in ls]
    raise AssertionError(m.kind)


def values(t, top=True):
    """All values of the bounded value space of a type."""
    if getattr(t, "chosen", None) is not None:
        for v in t.chosen:
            yield v
        return
    for i, sh in enumerate(shapes(t, top=top)):
        yield sh(Rotor(i))


def default_value(t):
    """The value of a freshly created message."""
    t = t.base()
    if isinstance(t, Enum):
        return t.members[0][1]
    if isinstance(t, Union):
        _, at, name = t.arms[0]
        return (name, default_value(at))
    if isinstance(t, Struct):
        out = {}
        for m in t.members:
            if m.name in t.sizers:
                continue
            if m.kind == "plain":
                out[m.name] = default_value(m.type)
            elif m.kind == "opt":
                out[m.name] = None
            elif m.type is BYTES:
                out[m.name] = b"\0" * (m.n if m.kind == "fixed" else 0)
            elif m.kind == "fixed":
                out[m.name] = [default_value(m.type) for _ in range(m.n)]
            else:
                out[m.name] = []
        return out
    return 0.0 if t.is_float else 0
