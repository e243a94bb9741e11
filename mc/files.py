"""Schemas split over files: base schemas, partitions of their declarations, arrangements on disk."""
import importlib
import os
import re
import sys

from . import isarside, ref
from .ref import Const, Enum, Member, Struct, Typedef, Union


class Named(int):
    """A number that the schema text spells by an expression."""

    def __new__(cls, number, text):
        self = int.__new__(cls, number)
        self.text = text
        return self

    def __str__(self):
        return self.text

    __repr__ = __str__


class Decl(object):
    def __init__(self, obj):
        self.obj, self.text = obj, obj.render()
        self.defines = [obj.name] + ([n for n, _ in obj.members] if isinstance(obj, Enum) else [])
        if isinstance(obj, Raw) and obj.text.startswith("enum"):
            self.defines += re.findall(r"(\w+) =", obj.text)
        self.words = set(re.findall(r"[A-Za-z_]\w*", self.text)) - set(self.defines)


class Raw(object):
    """A declaration given as text."""

    def __init__(self, text):
        self.text = text
        self.name = re.match(r"(?:const|enum|struct|union) (\w+)|typedef \w+ (\w+)", text)
        self.name = self.name.group(1) or self.name.group(2)

    def render(self):
        return self.text


class Schema(object):
    def __init__(self, name, objs):
        self.name = name
        self.decls = [Decl(o) for o in objs]
        self.uses = []  # index -> indices of the declarations it uses
        for d in self.decls:
            self.uses.append([i for i, e in enumerate(self.decls) if e is not d and d.words & set(e.defines)])
        assert all(j < i for i, u in enumerate(self.uses) for j in u), name

    @property
    def composites(self):
        return [d.obj for d in self.decls if isinstance(d.obj, (Struct, Union))]

    @property
    def numbers(self):
        """Name -> value of the constants and enumerators."""
        out = {}
        for d in self.decls:
            if isinstance(d.obj, Const):
                out[d.obj.name] = d.obj.value
            elif isinstance(d.obj, Enum):
                out.update((n, int(v)) for n, v in d.obj.members)
        return out

    def text(self):
        return "".join(d.text + "\n" for d in self.decls)


def const(name, number, text):
    c = Const(name, text)
    c.value = number
    return c


def schemas():
    """Every way a declaration can refer to another one occurs."""
    N, M = Named, Member
    U8, U16, U32, U64 = [ref.SCALARS[n] for n in ("u8", "u16", "u32", "u64")]

    k = const("K", 3, "3")
    e = Enum("E", [("E_a", N(4, "K + 1")), ("E_b", 9)])
    f = Struct("F", [M("a", U8, "fixed", N(3, "K")), M("b", e)])
    u = Union("U", [(N(9, "E_b"), f, "f"), (N(3, "K"), U64, "x"), (1, e, "e")])
    d = Struct("D", [M("a", f, "dyn"), M("u", u), M("c", U16, "lim", N(4, "E_a")), M("o", f, "opt")])
    m = Struct("Msg", [M("d", d), M("e", e, "fixed", N(5, "K + 2")), M("g", u, "greedy")])
    yield Schema("mixed", [k, e, f, u, d, m])

    t = Typedef("T", U16)
    tt = Typedef("TT", t)
    a = Struct("A", [M("n", tt), M("x", U8, "ext", sizer="n"), M("o", tt, "opt")])
    ta = Typedef("TA", a)
    b = Struct("B", [M("a", ta, "dyn"), M("o", t, "opt"), M("z", tt, "fixed", 2)])
    c = Struct("C", [M("b", b), M("t", ta), M("g", t, "greedy")])
    yield Schema("aliases", [t, tt, a, ta, b, c])

    k1 = const("K1", 2, "2")
    k2 = const("K2", 8, "K1 << 2")
    e = Enum("E", [("E_x", N(7, "K2 - 1")), ("E_y", N(2, "K1"))])
    k3 = const("K3", 5, "E_x - E_y")
    s = Struct("S", [M("a", U8, "fixed", N(5, "K3")), M("b", U32, "lim", N(4, "K2 / K1")), M("e", e, "opt")])
    v = Union("V", [(N(5, "K3"), s, "s"), (N(7, "E_x"), U8, "t"), (N(0, "K1 - E_y"), e, "e")])
    yield Schema("numbers", [k1, k2, e, k3, s, v])

    k = const("K", 2, "2")
    left = Struct("L", [M("a", U8, "fixed", N(2, "K"))])
    right = Struct("R", [M("b", U64, "lim", N(3, "K + 1"))])
    w = Union("W", [(N(2, "K"), left, "l"), (1, right, "r")])
    td = Typedef("TW", w)
    top = Struct("Top", [M("l", left, "lim", N(2, "K")), M("r", right, "opt"), M("w", td, "fixed", N(2, "K"))])
    yield Schema("diamond", [k, left, right, w, td, top])

    d = Struct("D", [M("a", ref.BYTES, "dyn"), M("b", U8)])
    td = Typedef("TD", d)
    g = Struct("G", [M("d", td), M("g", d, "greedy")])
    tg = Typedef("TG", g)
    h = Struct("H", [M("p", U8), M("g", tg)])
    i = Struct("I", [M("n", U8), M("m", td, "ext", sizer="n"), M("h", h)])
    yield Schema("tails", [d, td, g, tg, h, i])


INVALID = [
    ["struct G { u8 a<...>; };", "typedef G TG;", "typedef TG TTG;", "struct X { TTG a; u8 b; };"],
    ["struct G { u8 a<...>; };", "struct H { G a; };", "typedef H TH;", "struct X { TH a<>; };"],
    ["struct G { u8 a<...>; };", "struct H { G a; };", "typedef H TH;", "struct X { TH a<...>; };"],
    ["struct G { u8 a<...>; };", "typedef G TG;", "struct H { TG a; };", "struct X { H* a; };"],
    ["struct G { u8 a<...>; };", "struct H { G a; };", "struct I { H a; };", "union X { 1: I a; };"],
    ["struct D { u8 a<>; };", "typedef D TD;", "typedef TD TTD;", "struct X { TTD a[2]; };"],
    ["struct D { u8 a<>; };", "typedef D TD;", "struct H { TD a; };", "struct X { u8 b; H a<2>; };"],
    ["struct D { u8 a<>; };", "struct H { D a; };", "typedef H TH;", "struct X { TH* a; };"],
    ["struct D { u8 a<>; };", "struct H { D a; };", "typedef H TH;", "union X { 1: TH a; };"],
    ["const K = 4;", "const L = K - 4;", "const M = L * K;", "struct X { u8 a[M]; };"],
    ["const K = 4;", "enum E { E_a = K };", "const M = E_a - 5;", "struct X { u8 a<M>; };"],
    ["const K = 1;", "enum E { E_a = K };", "typedef E TE;", "struct X { TE n; u8 a<@n>; };"],
    ["typedef float TF;", "typedef TF TTF;", "typedef TTF TTTF;", "struct X { TTTF n; u8 a<@n>; };"],
    ["struct S { u8 a; };", "typedef S TS;", "typedef TS TTS;", "struct X { TTS n; u8 a<@n>; };"],
    ["const K = 1;", "enum E { E_a = K };", "const L = E_a;", "union X { L: u8 a; E_a: u16 b; };"],
    ["const K = 1 << 31;", "const L = K * 2;", "const M = L;", "enum X { X_a = M };"],
    ["const K = 1;", "const L = K - 2;", "enum E { E_a = K };", "union X { E_a: u8 a; L: u8 b; };"],
    ["typedef u8 T;", "typedef T TT;", "const K = 1;", "struct X { u8 a[TT]; TT b[K]; };"],
    ["const K = 1;", "const L = K;", "struct S { u8 a[L]; };", "struct X { K a; S b; };"],
]


def invalid_schemas():
    for n, texts in enumerate(INVALID):
        yield Schema("invalid%d" % n, [Raw(t) for t in texts])


def set_partitions(n):
    """Block number per element, in order of first appearance."""
    def grow(prefix, used):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for b in range(used + 1):
            for p in grow(prefix + [b], max(used, b + 1)):
                yield p
    return grow([], 0)


class Split(object):
    """A partition of the declarations into files, in an order in which every file follows what it uses."""

    def __init__(self, schema, blocks):
        self.schema = schema
        order = self._order(blocks)
        self.ok = order is not None
        if not self.ok:
            return
        self.files = [[i for i, b in enumerate(blocks) if b == x] for x in order]
        place = {i: k for k, f in enumerate(self.files) for i in f}
        self.needs = [sorted(set(place[j] for i in f for j in schema.uses[i]) - {k}) for k, f in enumerate(self.files)]
        self.stems = ["f" + chr(ord("a") + k) for k in range(len(self.files))]
        self.name = "%s %s" % (schema.name, "".join(str(b) for b in blocks))

    def _order(self, blocks):
        need = {b: set(blocks[j] for i, c in enumerate(blocks) if c == b for j in self.schema.uses[i]) - {b} for b in blocks}
        done = []
        while len(done) < len(need):
            ready = [b for b in sorted(need) if b not in done and need[b] <= set(done)]
            if not ready:
                return None
            done.append(ready[0])
        return done

    def body(self, k):
        return "".join(self.schema.decls[i].text + "\n" for i in self.files[k])

    def objects(self, k):
        return [self.schema.decls[i].obj for i in self.files[k]]

    def reach(self, k):
        """Files reachable by includes."""
        out = set()
        for j in self.needs[k]:
            out |= {j} | self.reach(j)
        return out


def splits(schema):
    for blocks in set_partitions(len(schema.decls)):
        s = Split(schema, blocks)
        if s.ok:
            yield s


# --- where the files lie and how they include each other

def rel(target, base):
    return os.path.relpath("/" + target, "/" + os.path.dirname(base))


class Layout(object):
    """paths[k]: file relative to the root; spelling(k, j): how k includes j; dirs: -I directories."""

    def __init__(self, split, kind, suffix=".prophy"):
        self.split, self.kind = split, kind
        n, stems = len(split.stems), [s + suffix for s in split.stems]
        self.dirs, self.decoys = [], []
        if kind in ("flat", "shadow"):
            self.paths = list(stems)
        elif kind in ("own", "relative", "rooted", "decoy"):
            self.paths = ["d%d/%s" % (k, s) for k, s in enumerate(stems)]
        elif kind == "down":
            self.paths = ["n/" * (n - 1 - k) + s for k, s in enumerate(stems)]
        elif kind == "up":
            self.paths = ["n/" * k + s for k, s in enumerate(stems)]
        elif kind == "two":
            self.paths = ["d%d/%s" % (k % 2, s) for k, s in enumerate(stems)]
        if kind in ("own", "two", "decoy"):
            self.dirs = sorted(set(os.path.dirname(p) for p in self.paths))
        if kind == "rooted":
            self.dirs = ["."]
        if kind in ("decoy", "shadow"):
            # found later than the right ones
            self.dirs.append("zz")
            self.decoys = ["zz/" + s for s in stems]

    def spelling(self, k, j):
        if self.kind in ("relative", "down", "up"):
            return rel(self.paths[j], self.paths[k])
        if self.kind == "rooted":
            return self.paths[j]
        return os.path.basename(self.paths[j])


LAYOUTS = ["flat", "own", "relative", "rooted", "down", "up", "two", "decoy", "shadow"]
WHERE = ["root", "beside", "absolute", "own dir"]
INPUTS = ["all", "reversed", "each", "last"]
INCLUDES = ["plain", "reversed", "twice", "late", "more"]


def includes(split, layout, k, style):
    """The include lines of file k with the text of its declarations."""
    needs = list(split.needs[k])
    body = split.body(k)
    if style == "more":
        needs = sorted(split.reach(k))
    if style == "reversed":
        needs.reverse()
    lines = ["#include \"%s\"\n" % layout.spelling(k, j) for j in needs]
    if style == "twice":
        lines = lines + lines
    if style == "late":
        # every include right before the first declaration that uses it
        out, seen = "", set()
        for i in split.files[k]:
            for j in needs:
                if j not in seen and any(x in split.files[j] for x in split.schema.uses[i]):
                    seen.add(j)
                    out += "#include \"%s\"\n" % layout.spelling(k, j)
            out += split.schema.decls[i].text + "\n"
        return out
    return "".join(lines) + body


def isar_includes(split, layout, k, style):
    """File k as isar XML and the patch rules it needs; constants stay expressions of names."""
    needs = list(split.needs[k])
    if style == "more":
        needs = sorted(split.reach(k))
    if style == "reversed":
        needs.reverse()
    lines = ['<xi:include href="%s"/>\n' % layout.spelling(k, j) for j in needs] * (2 if style == "twice" else 1)
    texts, rules = [], []
    for o in split.objects(k):
        text, more = isarside.render(o, isarside.Style(0, 0))
        texts.append(text + "\n")
        rules += [r + "\n" for r in more]
    texts = texts + lines if style == "late" else lines + texts
    return '<xml xmlns:xi="http://www.w3.org/2001/XInclude">\n%s</xml>\n' % "".join(texts), "".join(rules)


def write(root, layout, contents):
    for p, text in zip(layout.paths, contents):
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(text)
    for p in layout.decoys:
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write("const DECOY = 1;\n")


def commands(root, layout, where, inputs, outputs, options=()):
    """(cwd, arguments) of the runs that compile the files; outputs are absolute directories."""
    beside = os.path.join(root, "else", "where")
    os.makedirs(beside, exist_ok=True)
    n = len(layout.paths)
    if inputs == "each":
        runs = [[k] for k in range(n)]
    elif inputs == "last":
        # files nothing else includes
        used = set(j for need in layout.split.needs for j in need)
        runs = [[k for k in range(n) if k not in used]]
    else:
        runs = [list(range(n))] if inputs == "all" else [list(reversed(range(n)))]
    for run in runs:
        cwd = {"root": root, "absolute": beside, "beside": beside, "own dir": os.path.join(root, os.path.dirname(layout.paths[run[-1]]))}[where]

        def spell(p):
            full = os.path.normpath(os.path.join(root, p))
            return full if where == "absolute" else os.path.relpath(full, cwd)
        args = list(options)
        for o, d in outputs:
            args += ["--%s_out" % o, d]
        for d in layout.dirs:
            args += ["-I", spell(d)]
        yield cwd, args + [spell(layout.paths[k]) for k in run]


_packages = [0]


class Package(object):
    """Imports the generated modules of a directory as a package, the way they import each other."""

    def __init__(self, directory):
        _packages[0] += 1
        self.parent = os.path.join(directory, "pkg")
        self.name = "verif_pkg_%d_%d" % (os.getpid(), _packages[0])
        self.path = os.path.join(self.parent, self.name)
        os.makedirs(self.path)
        open(os.path.join(self.path, "__init__.py"), "w").close()

    def load(self, stem):
        if self.parent not in sys.path:
            sys.path.insert(0, self.parent)
        importlib.invalidate_caches()
        return importlib.import_module(self.name + "." + stem)

    def close(self):
        if self.parent in sys.path:
            sys.path.remove(self.parent)
        for m in [m for m in sys.modules if m.split(".")[0] == self.name]:
            del sys.modules[m]
