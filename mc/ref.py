"""Reference model of the prophy language and wire format.

Written from docs/encoding.rst, docs/schema.rst and the property texts only; it
imports nothing from prophy or prophyc. A schema is a list of declarations, a
value is plain Python data:

    scalar / enum   int or float
    bytes           bytes
    array           list
    optional        None or the value
    struct          dict field name -> value (counters are not part of it)
    union           (arm name, value)
"""
import struct as _struct

FIXED, DYNAMIC, UNLIMITED = 0, 1, 2
STIFFNESS_NAMES = {FIXED: "FIXED", DYNAMIC: "DYNAMIC", UNLIMITED: "UNLIMITED"}


class Scalar(object):
    is_composite = False
    stiffness = FIXED

    def __init__(self, name, size, fmt, lo=None, hi=None):
        self.name, self.size, self.fmt, self.lo, self.hi = name, size, fmt, lo, hi
        self.align = size
        self.is_float = fmt in "fd"

    def base(self):
        return self

    def __repr__(self):
        return self.name


def _int(name, size, fmt, signed):
    bits = size * 8
    return Scalar(name, size, fmt, -(1 << (bits - 1)) if signed else 0,
                  (1 << (bits - 1 if signed else bits)) - 1)


SCALARS = dict((s.name, s) for s in [
    _int("u8", 1, "B", False), _int("u16", 2, "H", False), _int("u32", 4, "I", False), _int("u64", 8, "Q", False),
    _int("i8", 1, "b", True), _int("i16", 2, "h", True), _int("i32", 4, "i", True), _int("i64", 8, "q", True),
    Scalar("float", 4, "f"), Scalar("double", 8, "d")])
U32 = SCALARS["u32"]


class Bytes(object):
    name = "bytes"
    size = align = 1
    stiffness = FIXED
    is_composite = False

    def base(self):
        return self

    def __repr__(self):
        return "bytes"


BYTES = Bytes()


class Const(object):
    def __init__(self, name, text):
        self.name, self.text = name, text

    def render(self):
        return "const %s = %s;" % (self.name, self.text)


class Enum(object):
    size = align = 4
    stiffness = FIXED
    is_composite = False
    fmt = "I"
    is_float = False

    def __init__(self, name, members):
        self.name, self.members = name, list(members)

    def base(self):
        return self

    def render(self):
        return "enum %s { %s };" % (self.name, ", ".join("%s = %s" % m for m in self.members))

    def name_of(self, value):
        # several enumerators may share a value only in inputs the checks do not use
        for n, v in self.members:
            if v == value:
                return n
        return None

    def __repr__(self):
        return self.name


class Typedef(object):
    def __init__(self, name, target):
        self.name, self.target = name, target

    def base(self):
        return self.target.base()

    size = property(lambda self: self.base().size)
    align = property(lambda self: self.base().align)
    stiffness = property(lambda self: self.base().stiffness)
    is_composite = property(lambda self: self.base().is_composite)

    def render(self):
        return "typedef %s %s;" % (self.target.name, self.name)

    def __repr__(self):
        return self.name


def pad_to(offset, align):
    return -offset % align


class Member(object):
    """kind: plain opt fixed dyn lim greedy ext xlim; n: extent or limit; sizer: for ext and xlim.

    xlim is a limited array counted by a member of its own, which the prophy language has no words for.
    """

    def __init__(self, name, type_, kind="plain", n=None, sizer=None):
        self.name, self.type, self.kind, self.n, self.sizer = name, type_, kind, n, sizer

    @property
    def is_array(self):
        return self.kind in ("fixed", "dyn", "lim", "greedy", "ext", "xlim")

    @property
    def counter_name(self):
        if self.kind in ("dyn", "lim"):
            return self.sizer or "num_of_" + self.name
        return self.sizer

    def render(self):
        t, n = self.type.name, self.name
        return {
            "plain": "%s %s;" % (t, n), "opt": "%s* %s;" % (t, n), "fixed": "%s %s[%s];" % (t, n, self.n),
            "dyn": "%s %s<>;" % (t, n), "lim": "%s %s<%s>;" % (t, n, self.n), "greedy": "%s %s<...>;" % (t, n),
            "ext": "%s %s<@%s>;" % (t, n, self.sizer), "xlim": "%s %s<%s@%s>;" % (t, n, self.n, self.sizer)}[self.kind]


class WireField(object):
    """One field as it appears on the wire (implicit counters made explicit)."""

    def __init__(self, name, role, member, align, dynamic, size):
        self.name, self.role, self.member = name, role, member
        self.align, self.dynamic, self.size = align, dynamic, size  # size None unless fixed


class Struct(object):
    is_composite = True

    def __init__(self, name, members):
        self.name, self.members = name, members
        self.sizers = set(m.sizer for m in members if m.kind in ("ext", "xlim"))
        self.wire = list(self._wire())
        self.align = max(f.align for f in self.wire)
        st = FIXED
        for m in members:
            if m.kind in ("dyn", "ext"):
                st = max(st, DYNAMIC)
            elif m.kind == "greedy":
                st = UNLIMITED
            st = max(st, m.type.stiffness)
        self.stiffness = st
        self.size = None
        if st == FIXED:
            off = 0
            for f in self.wire:
                off += pad_to(off, f.align) + f.size
            self.size = off + pad_to(off, self.align)

    def base(self):
        return self

    def _wire(self):
        for m in self.members:
            if m.kind in ("dyn", "lim"):
                yield WireField(m.counter_name, "counter", m, 4, False, 4)
            role = "counter" if m.name in self.sizers else m.kind
            t = m.type
            fixed = t.stiffness == FIXED
            if m.kind == "opt":
                al = max(4, t.align)
                yield WireField(m.name, role, m, al, False, al + t.size)
            elif m.kind == "plain":
                yield WireField(m.name, role, m, t.align, t.stiffness == DYNAMIC, t.size if fixed else None)
            elif m.kind in ("fixed", "lim", "xlim"):
                yield WireField(m.name, role, m, t.align, False, t.size * m.n)
            else:
                yield WireField(m.name, role, m, t.align, True, None)

    def blocks(self):
        """Split the wire fields into blocks ending with dynamic fields."""
        out, cur = [], []
        for f in self.wire:
            cur.append(f)
            if f.dynamic:
                out.append(cur)
                cur = []
        if cur:
            out.append(cur)
        return out

    def render(self):
        return "struct %s { %s };" % (self.name, " ".join(m.render() for m in self.members))

    def __repr__(self):
        return self.name


class Union(object):
    is_composite = True
    stiffness = FIXED

    def __init__(self, name, arms):
        self.name = name
        self.arms = arms  # (discriminator, type, name)
        self.align = max([4] + [t.align for _, t, _ in arms])
        size = self.align + max(t.size for _, t, _ in arms)
        self.size = size + pad_to(size, self.align)

    def base(self):
        return self

    def arm(self, name):
        return [a for a in self.arms if a[2] == name][0]

    def render(self):
        return "union %s { %s };" % (self.name, " ".join("%s: %s %s;" % (d, t.name, n) for d, t, n in self.arms))

    def __repr__(self):
        return self.name


def render_schema(decls):
    return "".join(d.render() + "\n" for d in decls)


# --------------------------------------------------------------------------
# canonical encoding

class Writer(object):
    """Collects bytes and a map of spans: (offset, length, what).

    what is 'scalar', 'bytes', 'pad' or one of the control words 'counter',
    'flag', 'disc', 'enum' (which are scalars too).
    """

    def __init__(self, endianness):
        self.e = endianness
        self.out = bytearray()
        self.spans = []

    def pad(self, n, what="pad"):
        if n:
            self.spans.append((len(self.out), n, what))
            self.out += b"\0" * n

    def align(self, a):
        self.pad(pad_to(len(self.out), a))

    def scalar(self, fmt, value, what="scalar"):
        data = _struct.pack(self.e + fmt, value)
        self.spans.append((len(self.out), len(data), what))
        self.out += data

    def raw(self, data):
        if data:
            self.spans.append((len(self.out), len(data), "bytes"))
            self.out += data


def write(w, t, v):
    t = t.base()
    if isinstance(t, Scalar):
        w.scalar(t.fmt, v)
    elif isinstance(t, Enum):
        w.scalar("I", v, "enum")
    elif isinstance(t, Union):
        start = len(w.out)
        d, at, _ = t.arm(v[0])
        w.scalar("I", d, "disc")
        w.align(t.align)
        write(w, at, v[1])
        w.pad(t.size - (len(w.out) - start))
    else:
        write_struct(w, t, v)


def write_struct(w, s, v):
    for i, block in enumerate(s.blocks()):
        if i:
            w.align(max(f.align for f in block))
        for f in block:
            w.align(f.align)
            write_field(w, s, f, v)
    w.align(s.align)


def write_field(w, s, f, v):
    if f.role == "counter":
        write_counter(w, s, f, v)
        return
    m = f.member
    val, t = v[m.name], m.type
    if m.kind == "plain":
        write(w, t, val)
    elif m.kind == "opt":
        if val is None:
            w.scalar("I", 0, "flag")
            w.pad(f.size - 4, "absent")
        else:
            w.scalar("I", 1, "flag")
            w.align(f.align)
            write(w, t, val)
    else:
        start = len(w.out)
        if t is BYTES:
            w.raw(val)
        else:
            for el in val:
                write(w, t, el)
        if m.kind in ("fixed", "lim", "xlim"):
            w.pad(f.size - (len(w.out) - start), "unused")


class UnequalLengths(Exception):
    pass


def write_counter(w, s, f, v):
    if f.member.name == f.name:  # explicit sizer
        lens = set(len(v[m.name]) for m in s.members if m.kind in ("ext", "xlim") and m.sizer == f.name)
        if len(lens) != 1:
            raise UnequalLengths()
        w.scalar(f.member.type.base().fmt, lens.pop(), "counter")
    else:
        w.scalar("I", len(v[f.member.name]), "counter")


def encode(t, v, endianness):
    w = Writer(endianness)
    write(w, t, v)
    return bytes(w.out)


def encode_map(t, v, endianness):
    w = Writer(endianness)
    write(w, t, v)
    return bytes(w.out), w.spans


def field_spans(s, v):
    """(name, start, end) of every wire field of a struct value, and the total length."""
    w = Writer("<")
    out = []
    s = s.base()
    for i, block in enumerate(s.blocks()):
        if i:
            w.align(max(f.align for f in block))
        for f in block:
            w.align(f.align)
            start = len(w.out)
            write_field(w, s, f, v)
            out.append((f.name, start, len(w.out)))
    w.align(s.align)
    return out, len(w.out)


def greedy_end(t, v):
    """Offset one past the last greedy element, i.e. without the closing padding
    of the structs that enclose the greedy array."""
    w = Writer("<")
    _greedy_end(w, t.base(), v)
    return len(w.out)


def _greedy_end(w, s, v):
    for i, block in enumerate(s.blocks()):
        if i:
            w.align(max(f.align for f in block))
        for f in block:
            w.align(f.align)
            m = f.member
            if f.role == "plain" and m.type.stiffness == UNLIMITED:
                _greedy_end(w, m.type.base(), v[m.name])
            else:
                write_field(w, s, f, v)


def tail_aligned(t, v):
    """False for the documented exception: a greedy tail followed by padding."""
    return t.stiffness != UNLIMITED or greedy_end(t, v) == len(encode(t, v, "<"))


def invalid(t, v):
    """Why v is not a value of type t, or None."""
    t = t.base()
    if isinstance(t, Struct):
        for m in t.members:
            if m.name in t.sizers:
                continue
            x = v[m.name]
            if m.is_array:
                if m.kind == "fixed" and len(x) != m.n or m.kind in ("lim", "xlim") and len(x) > m.n:
                    return "%d elements in %s" % (len(x), m.render())
                if m.type is BYTES:
                    if not isinstance(x, bytes):
                        return "%r in %s" % (x, m.render())
                    continue
                items = x
            else:
                items = [] if m.kind == "opt" and x is None else [x]
            for el in items:
                why = invalid(m.type, el)
                if why:
                    return "%s: %s" % (m.name, why)
        return None
    if isinstance(t, Union):
        return invalid(t.arm(v[0])[1], v[1])
    if isinstance(t, Enum):
        return None if t.name_of(v) else "%r is not in enum %s" % (v, t.name)
    if t.is_float:
        return None if isinstance(v, (int, float)) else "%r in %s" % (v, t.name)
    return None if t.lo <= v <= t.hi else "%r in %s" % (v, t.name)


# --------------------------------------------------------------------------
# text rendering

def render_bytes(data):
    out = []
    for c in bytearray(data):
        ch = chr(c)
        if ch in "\\'":
            out.append("\\" + ch)
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif 32 <= c < 127:
            out.append(ch)
        else:
            out.append("\\x%02x" % c)
    return "'" + "".join(out) + "'"


def text(t, v, indent=0):
    t = t.base()
    if isinstance(t, Union):
        _, at, name = t.arm(v[0])
        return _text_field(name, at, v[1], indent)
    out = ""
    for m in t.members:
        if m.name in t.sizers:
            continue
        val = v[m.name]
        if m.kind == "opt" and val is None:
            continue
        if m.is_array and m.type is not BYTES:
            for el in val:
                out += _text_field(m.name, m.type, el, indent)
        else:
            out += _text_field(m.name, m.type, val, indent)
    return out


def _text_field(name, t, v, indent):
    t = t.base()
    sp = "  " * indent
    if t.is_composite:
        return "%s%s {\n%s%s}\n" % (sp, name, text(t, v, indent + 1), sp)
    if t is BYTES:
        return "%s%s: %s\n" % (sp, name, render_bytes(v))
    if isinstance(t, Enum):
        return "%s%s: %s\n" % (sp, name, t.name_of(v))
    return "%s%s: %s\n" % (sp, name, v)
