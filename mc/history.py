"""Operations of the Python message API: their enumeration, the plain reference model and the real calls.

The reference model of a message is a tree of dicts (structs), [arm, value] pairs (unions), lists and leaves, i.e. the
values of mc/ref.py made mutable. An operation is a tuple (path, name, arguments); the path leads from the message to
the struct, union or array it is applied to and is looked up anew for every operation.
"""
import copy
import struct as _struct

from . import pyside, space
from .ref import BYTES, Enum, Struct, Union

P = ("ProphyError",)
INDEX = ("ProphyError", "IndexError")
ELEMENT = ("ProphyError", "ValueError")
# an operation the object does not have at all; extend() of composites is pinned to TypeError by the tests
UNSUPPORTED = ("ProphyError", "TypeError", "AttributeError")
WRONG = ("wrong", "type")


class Reject(Exception):
    def __init__(self, kinds):
        self.kinds = kinds


def thaw(t, v):
    """A mutable copy of a reference value."""
    t = t.base()
    if isinstance(t, Union):
        return [v[0], thaw(t.arm(v[0])[1], v[1])]
    if not isinstance(t, Struct):
        return v
    out = {}
    for m in t.members:
        if m.name in t.sizers:
            continue
        x = v[m.name]
        if m.type is BYTES or x is None:
            out[m.name] = x
        elif m.is_array:
            out[m.name] = [thaw(m.type, el) for el in x]
        else:
            out[m.name] = thaw(m.type, x)
    return out


def default(t):
    return thaw(t, space.default_value(t))


# --------------------------------------------------------------------------
# leaves: values that are accepted and values that are not

def goods(t):
    t = t.base()
    if isinstance(t, Enum):
        return [t.members[1][1], t.members[2][0]]
    if t.is_float:
        return [1.5, 3]
    return [1, t.lo or t.hi]


def bads(t):
    t = t.base()
    if isinstance(t, Enum):
        return [5, -1, 1 << 32, "E_W", 3.0, None, b"E_X"]
    if t.is_float:
        return ["1.5", None, b"", [1.5], 10 ** 400, 1j] + ([1e39, -1e39, 1 << 128] if t.size == 4 else [])
    return [t.hi + 1, t.lo - 1, 1.0, "1", None, b"\x01", [1], 10 ** 40]


def bytes_goods(m):
    if m.kind in ("fixed", "lim", "xlim"):
        return [b"", b"a\x00"[:m.n], b"x" * m.n]
    return [b"", b"a\x00", b"xyz"]


def bytes_bads(m):
    return ["ab", None, 5, [1], bytearray(b"a")] + ([b"y" * (m.n + 1)] if m.n else [])


def accept(t, x):
    """The value stored for a leaf assigned from x."""
    t = t.base()
    if isinstance(t, Enum):
        if isinstance(x, str):
            named = [v for n, v in t.members if n == x]
            if named:
                return named[0]
        elif isinstance(x, int) and t.name_of(x):
            return x
        raise Reject(P)
    if t.is_float:
        if isinstance(x, (int, float)):
            try:
                _struct.pack("<" + t.fmt, x)
                return x
            except (OverflowError, _struct.error):
                pass
        raise Reject(P)
    if isinstance(x, int) and t.lo <= x <= t.hi:
        return x
    raise Reject(P)


def limit(s, m):
    """Greatest number of elements an array or bytes field can take."""
    if m.kind == "lim":
        return m.n
    if m.kind == "xlim":
        return min(m.n, [x for x in s.members if x.name == m.sizer][0].type.base().hi)
    if m.kind == "ext":
        return [x for x in s.members if x.name == m.sizer][0].type.base().hi
    return (1 << 32) - 1 if m.kind == "dyn" else None


def accept_bytes(s, m, x):
    if not isinstance(x, bytes):
        raise Reject(P)
    if m.kind == "fixed":
        if len(x) > m.n:
            raise Reject(P)
        return x.ljust(m.n, b"\0")
    most = limit(s, m)
    if most is not None and len(x) > most:
        raise Reject(P)
    return x


# --------------------------------------------------------------------------
# enumeration

def operations(t, v, path=(), level=0, rich=True):
    """All operations considered in state v. Paths longer than three steps are not followed."""
    t = t.base()
    if isinstance(t, Union):
        for d, at, name in t.arms:
            yield path, "discriminator", (name,)
            yield path, "discriminator", (d,)
            if at.base().is_composite:
                yield path, "arm", (name, 1)
            else:
                for x in goods(at)[:1 + rich] + bads(at)[:(3 if rich else 1)]:
                    yield path, "arm", (name, x)
        for x in ("nope", 77, None, -1) if rich else ("nope",):
            yield path, "discriminator", (x,)
        at = t.arm(v[0])[1].base()
        if at.is_composite and level < 3:
            for op in operations(at, v[1], path + (("f", v[0]),), level + 1, False):
                yield op
        return
    for m in t.members:
        if m.name in t.sizers:
            yield path, "counter", (m.name, 1)
            continue
        mt = m.type.base()
        x = v[m.name]
        if m.kind in ("dyn", "lim"):
            yield path, "counter", (m.counter_name, 1)
        if m.type is BYTES:
            for arg in bytes_goods(m) + bytes_bads(m):
                yield path, "bytes", (m.name, arg)
            most = limit(t, m)
            if m.kind == "ext" and most < 1 << 16:
                yield path, "bytes", (m.name, b"z" * most)
                yield path, "bytes", (m.name, b"z" * (most + 1))
        elif m.is_array:
            yield path, "array", (m.name, [])
            if mt.is_composite:
                for op in composite_array(t, m, x, path, level, rich):
                    yield op
            else:
                for op in scalar_array(t, m, x, path, rich):
                    yield op
        elif mt.is_composite:
            if m.kind == "opt":
                for arg in (True, None, False, 1, "x"):
                    yield path, "optional", (m.name, arg)
            else:
                for arg in (1, None, True):
                    yield path, "composite", (m.name, arg)
            if x is not None and level < 3:
                for op in operations(mt, x, path + (("f", m.name),), level + 1, rich and level < 1):
                    yield op
        else:
            if m.kind == "opt":
                yield path, "set", (m.name, None)
            for arg in goods(mt) + bads(mt)[:(99 if rich else 2)]:
                if arg is not None or m.kind != "opt":
                    yield path, "set", (m.name, arg)


def scalar_array(s, m, x, path, rich):
    t = m.type.base()
    a, b = goods(t)
    bad, worse = bads(t)[0], bads(t)[3]
    here = path + (("a", m.name),)
    n = len(x)
    yield here, "sort", ()
    indices = sorted(set([0, -1, n // 2, n - 1, n, -n, -n - 1]))
    for i in indices:
        yield here, "item", (i, a)
        if rich:
            yield here, "item", (i, b)
    yield here, "item", (0, bad)
    slices = [(None, None, None), (0, 1, None), (1, None, None), (None, -1, None), (n, None, None), (1, 1, None),
              (None, None, 2), (None, None, -1), (1, None, 2), (2, 0, None), (-9, 9, None), (None, 2, 1)]
    sizes = [0, 1, 2]
    if m.kind == "fixed":
        sizes = [0, 1, m.n - 1, m.n, m.n + 1]
    for sl in slices if rich else slices[:2] + slices[6:8]:
        right = len(range(*slice(*sl).indices(n)))
        for k in sorted(set([max(0, z) for z in sizes + [right]])):
            yield here, "slice", (sl, "list", tuple((a, b)[i % 2] for i in range(k)))
        yield here, "slice", (sl, "list", (a,) * max(0, right - 1) + (bad,))
        yield here, "slice", (sl, "iter", (b,) * right)
        yield here, "slice", (sl, "self", ())
    yield here, "slice", ((None, None, None), "plain", 5)
    yield here, "slice", ((None, None, None), "gen", (b,) * n + (bad,))
    if m.kind == "fixed":
        for arg in slices[:1] + slices[6:7]:
            yield here, "delete slice", arg
        yield here, "delete", (0,)
        return
    for arg in (a, b, bad, worse):
        yield here, "append", (arg,)
    for i in (0, 1, -1, 99, -99) if rich else (0, 1):
        yield here, "insert", (i, b)
    yield here, "insert", (0, bad)
    for form, items in (("list", ()), ("list", (a, b)), ("tuple", (b,)), ("iter", (a, b)), ("gen", (b,)), ("iter", ()),
                        ("list", (a, bad)), ("list", (a, b, worse)), ("iter", (a, bad)), ("self", ()), ("plain", 5),
                        ("other", (b, a))):
        yield here, "extend", (form, items)
    most = limit(s, m)
    if most is not None and most < 300:
        room = most - n
        for k in (room, room + 1):
            for form in ("list", "iter"):
                yield here, "extend", (form, (a,) * k)
                yield here, "slice", ((n, None, None), form, (b,) * k)
    for i in indices:
        yield here, "delete", (i,)
    for sl in slices if rich else slices[:2] + slices[6:8]:
        yield here, "delete slice", sl
    for arg in (accept(t, a), accept(t, b), bad, worse):
        yield here, "remove", (arg,)


def samples(t):
    """Two element values for composite arrays."""
    vals = list(space.values(t))
    return [thaw(t, vals[0]), thaw(t, vals[-1])]


def leaf_member(t):
    if isinstance(t, Struct):
        for m in t.members:
            if m.kind in ("plain", "opt") and not m.type.base().is_composite and m.name not in t.sizers:
                return m
    return None


def composite_array(s, m, x, path, level, rich):
    t = m.type.base()
    here = path + (("a", m.name),)
    n = len(x)
    if level < 2:
        for i in sorted(set([0, n - 1])) if n else []:
            for op in operations(t, x[i], path + (("i", m.name, i),), level + 1, False):
                yield op
    yield here, "item", (0, WRONG)
    yield here, "slice", ((None, None, None), "plain", 1)
    if m.kind == "fixed":
        yield here, "delete", (0,)
        return
    one, two = samples(t)
    yield here, "add", ()
    if isinstance(t, Struct):
        for am in t.members:
            if am.name in t.sizers or am.type is BYTES and am.kind == "greedy":
                continue
            at = am.type.base()
            if am.type is BYTES:
                yield here, "add", ((am.name, bytes_goods(am)[1]),)
                yield here, "add", ((am.name, "x"),)
            elif am.is_array and not at.is_composite:
                a, b = goods(at)
                k = am.n if am.kind in ("fixed", "lim", "xlim") else 2
                yield here, "add", ((am.name, (a, b, a, b, a)[:k]),)
                yield here, "add", ((am.name, (a,) * (k - 1) + (bads(at)[0],)),)
                yield here, "add", ((am.name, 5),)
            elif am.is_array:
                yield here, "add", ((am.name, (1,)),)
            elif at.is_composite:
                yield here, "add", ((am.name, 1),)
                if am.kind == "opt":
                    yield here, "add", ((am.name, True),)
            else:
                yield here, "add", ((am.name, goods(at)[1]),)
                yield here, "add", ((am.name, bads(at)[0]),)
        good = leaf_member(t)
        if good:
            yield here, "add", ((good.name, goods(good.type)[1]), ("nope", 1))
    else:
        for d, at, name in t.arms:
            yield here, "add", (("discriminator", d),)
            if not at.base().is_composite:
                yield here, "add", (("discriminator", name), (name, goods(at)[1]))
                yield here, "add", ((name, goods(at)[1]),)
        yield here, "add", (("discriminator", "nope"),)
    for form, items in (("list", ()), ("list", (one, two)), ("tuple", (two,)), ("iter", (one, two)), ("iter", ()),
                        ("list", (two, WRONG)), ("iter", (one, WRONG)), ("list", (WRONG,)), ("self", ()),
                        ("plain", 5), ("other", (two, one))):
        yield here, "extend", (form, items)
    most = limit(s, m)
    if most is not None and most < 300:
        for form in ("list", "iter"):
            yield here, "extend", (form, (one,) * (most - n))
            yield here, "extend", (form, (one,) * (most - n + 1))
    for i in sorted(set([0, -1, n // 2, n, -n - 1])):
        yield here, "delete", (i,)
    for sl in ((None, None, None), (0, 1, None), (1, None, None), (None, None, 2), (None, None, -1)):
        yield here, "delete slice", sl


# --------------------------------------------------------------------------
# the reference model

def locate(t, v, path):
    """(owner struct, member or None, type, node) at a path."""
    owner, member = None, None
    for step in path:
        t = t.base()
        if isinstance(t, Union):
            _, t, _ = t.arm(v[0])
            v = v[1]
            continue
        m = [m for m in t.members if m.name == step[1]][0]
        if step[0] == "a":
            return t, m, m.type, v[m.name]
        owner, member, t = t, m, m.type
        v = v[m.name] if step[0] == "f" else v[m.name][step[2]]
    return owner, member, t.base(), v


def items_of(form, items, node):
    if form == "plain":
        return None
    return list(node) if form == "self" else list(items)


def step(t, v, op):
    """The state after an operation; raises Reject."""
    v = copy.deepcopy(v)
    path, name, args = op
    s, m, nt, node = locate(t, v, path)
    if m is not None and path and path[-1][0] == "a":
        array_step(s, m, node, name, args)
    elif isinstance(nt, Union):
        union_step(nt, node, name, args)
    else:
        struct_step(nt, node, name, args)
    return v


def struct_step(t, node, name, args):
    field, arg = args
    if name == "counter":
        raise Reject(UNSUPPORTED)
    if name in ("array", "composite"):
        raise Reject(P)
    m = [m for m in t.members if m.name == field][0]
    if name == "bytes":
        node[field] = accept_bytes(t, m, arg)
    elif name == "optional":
        if arg is True:
            node[field] = default(m.type)
        elif arg is None:
            node[field] = None
        else:
            raise Reject(P)
    elif arg is None and m.kind == "opt":
        node[field] = None
    else:
        node[field] = accept(m.type, arg)


def union_step(t, node, name, args):
    if name == "discriminator":
        for d, at, arm in t.arms:
            if args[0] == d or args[0] == arm:
                if arm != node[0]:
                    node[:] = [arm, default(at)]
                return
        raise Reject(P)
    field, arg = args
    at = t.arm(field)[1].base()
    if field != node[0] or at.is_composite:
        raise Reject(P)
    node[1] = accept(at, arg)


def array_step(s, m, node, name, args):
    t = m.type.base()
    most = limit(s, m)
    if t.is_composite:
        return composite_array_step(s, m, t, most, node, name, args)
    if name == "sort":
        node.sort()
    elif name == "item":
        i, x = args
        kinds = ()
        try:
            x = accept(t, x)
        except Reject as e:
            kinds = e.kinds
        if not -len(node) <= i < len(node):
            kinds = INDEX
        if kinds:
            raise Reject(kinds)
        node[i] = x
    elif name == "slice":
        sl, form, items = args
        items = items_of(form, items, node)
        if items is None:
            raise Reject(P)
        items = [accept(t, x) for x in items]
        room = len(node[slice(*sl)])
        if m.kind == "fixed":
            if room != len(items):
                raise Reject(ELEMENT)
        elif sl[2] not in (None, 1):
            if room != len(items):
                raise Reject(ELEMENT)
        elif most is not None and len(node) - room + len(items) > most:
            raise Reject(P)
        node[slice(*sl)] = items
    elif m.kind == "fixed":
        raise Reject(UNSUPPORTED)
    elif name in ("append", "insert"):
        x = accept(t, args[-1])
        if len(node) == most:
            raise Reject(P)
        node.insert(args[0] if name == "insert" else len(node), x)
    elif name == "extend":
        items = items_of(args[0], args[1], node)
        if items is None:
            raise Reject(P)
        items = [accept(t, x) for x in items]
        if most is not None and len(node) + len(items) > most:
            raise Reject(P)
        node.extend(items)
    elif name == "remove":
        if args[0] not in node:
            raise Reject(ELEMENT)
        node.remove(args[0])
    else:
        delete_step(node, name, args)


def delete_step(node, name, args):
    if name == "delete":
        if not -len(node) <= args[0] < len(node):
            raise Reject(INDEX)
        del node[args[0]]
    else:
        del node[slice(*args)]


def composite_array_step(s, m, t, most, node, name, args):
    if name in ("item", "slice") or m.kind == "fixed":
        raise Reject(UNSUPPORTED)
    if name == "add":
        if len(node) == most:
            raise Reject(P)
        element = default(t)
        for field, arg in args:
            add_attribute(t, element, field, arg)
        node.append(element)
    elif name == "extend":
        items = items_of(args[0], args[1], node)
        if items is None or WRONG in items:
            raise Reject(UNSUPPORTED)
        if most is not None and len(node) + len(items) > most:
            raise Reject(P)
        node.extend(copy.deepcopy(x) for x in items)
    else:
        delete_step(node, name, args)


def add_attribute(t, element, field, arg):
    if isinstance(t, Union):
        return union_step(t, element, "discriminator" if field == "discriminator" else "arm",
                          (arg,) if field == "discriminator" else (field, arg))
    found = [m for m in t.members if m.name == field]
    if not found:
        raise Reject(UNSUPPORTED)
    m = found[0]
    mt = m.type.base()
    if m.type is BYTES:
        struct_step(t, element, "bytes", (field, arg))
    elif m.is_array:
        array_step(t, m, element[field], "slice",
                   ((None, None, None), "plain" if isinstance(arg, int) else "list", arg))
    elif mt.is_composite:
        struct_step(t, element, "optional" if m.kind == "opt" else "composite", (field, arg))
    else:
        struct_step(t, element, "set", (field, arg))


# --------------------------------------------------------------------------
# the real calls

def find(msg, path):
    for step_ in path:
        msg = getattr(msg, step_[1])
        if step_[0] == "i":
            msg = msg[step_[2]]
    return msg


def material(module, t, target, form, items):
    """The argument of extend() or of a slice assignment."""
    if form == "self":
        return target
    if form == "plain":
        return items
    t = t.base()
    if t.is_composite:
        cls = getattr(module, t.name)
        made = []
        for x in items:
            if x is WRONG:
                made.append(1)
            else:
                msg = cls()
                pyside.set_value(msg, t, x)
                made.append(msg)
        items = made
    if form == "iter":
        return iter(list(items))
    if form == "gen":
        return (x for x in list(items))
    if form == "other":
        return Sequence(items)
    return tuple(items) if form == "tuple" else list(items)


class Sequence(object):
    """A foreign sequence: a length and indexing, nothing else."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def perform(module, t, v, msg, op):
    """Execute an operation on the message; v is its reference state (for the types on the path)."""
    path, name, args = op
    target = find(msg, path)
    if name in ("set", "bytes", "composite", "array", "optional", "counter", "arm"):
        setattr(target, args[0], args[1])
    elif name == "discriminator":
        target.discriminator = args[0]
    elif name == "item":
        target[args[0]] = 1 if args[1] is WRONG else args[1]
    elif name == "slice":
        sl, form, items = args
        _, m, nt, _ = locate(t, v, path)
        target[slice(*sl)] = material(module, nt, target, form, items)
    elif name == "append":
        target.append(args[0])
    elif name == "insert":
        target.insert(*args)
    elif name == "extend":
        _, m, nt, _ = locate(t, v, path)
        target.extend(material(module, nt, target, *args))
    elif name == "remove":
        target.remove(args[0])
    elif name == "delete":
        del target[args[0]]
    elif name == "delete slice":
        del target[slice(*args)]
    elif name == "sort":
        target.sort()
    elif name == "add":
        target.add(**dict((k, list(x) if isinstance(x, tuple) else x) for k, x in args))
    else:
        raise AssertionError(name)


def snapshot(o):
    """Everything an object of the runtime remembers, for telling states apart; never used as an oracle."""
    if o is None or isinstance(o, (int, float, str, bytes)):
        return "%s:%r" % (type(o).__name__, o)
    if isinstance(o, (list, tuple)):
        return "[%s]" % ",".join(snapshot(x) for x in o)
    if isinstance(o, dict):
        return "{%s}" % ",".join(sorted("%s=%s" % (k, snapshot(x)) for k, x in o.items()))
    if not hasattr(type(o), "_is_prophy_object"):
        return "<%s>" % getattr(o, "name", type(o).__name__)
    seen = {}
    for cls in type(o).__mro__:
        for name in getattr(cls, "__slots__", ()):
            if hasattr(o, name):
                seen[name] = getattr(o, name)
    seen.update(getattr(o, "__dict__", {}))
    return snapshot(seen)


def show(op):
    path, name, args = op
    where = "".join("[%d]" % s[2] if s[0] == "i" and False else "." + s[1] + ("[%d]" % s[2] if s[0] == "i" else "")
                    for s in path)
    text = ", ".join(str(a) if len(repr(a)) < 60 else repr(a)[:57] + "..." for a in map(repr, args))
    return "m%s %s(%s)" % (where, name, text)
