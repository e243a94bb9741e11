"""Patch scripts and what they mean, after docs/other_schemas.rst.

A schema is a list of nodes, a script a list of rules. Running a script over a schema gives
another schema or Refused. Where the documentation leaves the outcome open, the result is
marked as open: the compiler may refuse, but if it accepts, then this is what it has to give.
"""
import copy

from . import ref
from .ref import Member, SCALARS, Struct, Typedef, Union

STRUCT_ACTIONS = {"type": 2, "insert": 3, "remove": 1, "dynamic": 2, "greedy": 1, "static": 2, "limited": 2}


class Refused(Exception):
    pass


class Field(object):
    """kind: plain opt fixed dyn xlim greedy; dyn and xlim name their sizer."""

    def __init__(self, name, type_, kind="plain", n=None, sizer=None):
        self.name, self.type, self.kind, self.n, self.sizer = name, type_, kind, n, sizer


class Node(object):
    """what: struct union enum typedef constant; members: fields, arms as (number, field), enumerators."""

    def __init__(self, what, name, members=(), target=None, number=None):
        self.what, self.name, self.members = what, name, list(members)
        self.target, self.number = target, number


class Schema(object):
    def __init__(self, nodes):
        self.nodes = nodes
        self.open = None    # why the documentation does not decide

    def copy(self):
        return copy.deepcopy(self)


def field(node, name):
    for m in node.members:
        m = m[1] if node.what == "union" else m
        if m.name == name:
            return m
    raise Refused("no field %s" % name)


def apply(schema, node, action, params):
    if action in STRUCT_ACTIONS:
        if node.what != "struct":
            raise Refused("%s of %s" % (action, node.what))
        if len(params) != STRUCT_ACTIONS[action]:
            raise Refused("%s with %d parameters" % (action, len(params)))
    if action == "insert":
        try:
            at = int(params[0])
        except ValueError:
            raise Refused("insert at %s" % params[0])
        if at < 0:
            schema.open = "negative index"
        node.members.insert(at, Field(params[1], params[2]))
    elif action in STRUCT_ACTIONS:
        f = field(node, params[0])
        if action == "type":
            f.type = params[1]
        elif action == "remove":
            node.members.remove(f)
        elif action == "dynamic":
            f.kind, f.n, f.sizer = "dyn", None, params[1]
        elif action == "greedy":
            f.kind, f.n, f.sizer = "greedy", None, None
        elif action == "static":
            f.kind, f.n, f.sizer = "fixed", params[1], None
        elif action == "limited":
            if f.kind == "xlim":
                schema.open = "limited made limited again"
            elif f.kind != "fixed":
                raise Refused("limited of %s" % f.kind)
            if params[1] not in [m.name for m in node.members[:node.members.index(f)]]:
                raise Refused("no sizer %s" % params[1])
            f.kind, f.sizer = "xlim", params[1]
    elif action == "struct":
        if node.what != "union":
            raise Refused("struct of %s" % node.what)
        if params:
            raise Refused("struct with parameters")
        node.what, node.members = "struct", [m for _, m in node.members]
    elif action == "rename":
        if len(params) == 1:
            old = node.name
            node.name = params[0]
            if old != node.name and any(old in names_used(n) for n in schema.nodes):
                schema.open = "renamed node is in use"
        elif len(params) == 2:
            if node.what not in ("struct", "union"):
                raise Refused("rename of a field of %s" % node.what)
            f = field(node, params[0])
            f.name = params[1]
            if node.what == "struct" and any(m.sizer == params[0] for m in node.members):
                schema.open = "renamed field is a sizer"
        else:
            raise Refused("rename with %d parameters" % len(params))
    else:
        raise Refused("action %s" % action)


def names_used(node):
    if node.what == "struct":
        return [m.type for m in node.members] + [m.n for m in node.members]
    if node.what == "union":
        return [m.type for _, m in node.members]
    return [node.target]


def run(schema, script):
    """The schema that results; raises Refused."""
    schema = schema.copy()
    script = [words for words in (" ".join(words).split() for words in script) if words]
    if any(len(words) == 1 for words in script):
        raise Refused("rule without action")
    for node in schema.nodes:
        original = node.name
        for words in script:
            if words[0] == original:
                apply(schema, node, words[1], words[2:])
    return schema


# --------------------------------------------------------------------------
# from the result to reference types

class Resolver(object):
    """Turns nodes into reference types, refusing what is no valid schema."""

    def __init__(self, schema):
        self.schema = schema
        self.done = {}
        self.busy = set()
        self.open = schema.open

    def constant(self, text):
        for n in self.schema.nodes:
            if n.what == "constant" and n.name == text:
                return n.number
            if n.what == "enum":
                for name, number in n.members:
                    if name == text:
                        return number
        try:
            return int(text)
        except ValueError:
            raise Refused("size %s" % text)

    def type(self, name):
        if name in SCALARS:
            return SCALARS[name]
        if name in ("r32", "r64"):
            return SCALARS["float" if name == "r32" else "double"]
        if name in self.done:
            return self.done[name]
        if name in self.busy:
            raise Refused("%s contains itself" % name)
        for n in self.schema.nodes:
            if n.name == name and n.what != "constant":
                self.busy.add(name)
                made = self.make(n)
                self.busy.discard(name)
                self.done[name] = made
                return made
        raise Refused("type %s" % name)

    def make(self, n):
        if n.what == "enum":
            return ref.Enum(n.name, n.members)
        if n.what == "typedef":
            return Typedef(n.name, self.type(n.target))
        if n.what == "union":
            arms = [(d, self.type(m.type), m.name) for d, m in n.members]
            self.unique([m.name for _, m in n.members])
            if any(t.stiffness != ref.FIXED for _, t, _ in arms):
                raise Refused("dynamic arm")
            return Union(n.name, arms)
        self.unique([m.name for m in n.members])
        if not n.members:
            self.open = "no members left"
            raise Refused("no members")
        out = []
        for i, m in enumerate(n.members):
            t = self.type(m.type)
            if t.stiffness == ref.UNLIMITED and (m.kind != "plain" or i + 1 < len(n.members)):
                raise Refused("unlimited field %s" % m.name)
            if t.stiffness != ref.FIXED and m.kind in ("opt", "fixed", "xlim"):
                raise Refused("dynamic field %s" % m.name)
            if m.kind == "greedy" and i + 1 < len(n.members):
                raise Refused("greedy field %s" % m.name)
            if m.sizer:
                self.sizer(n, i, m)
            size = None
            if m.kind in ("fixed", "xlim"):
                size = self.constant(m.n)
                if not 0 < size < 1 << 32:
                    raise Refused("size %s" % m.n)
            out.append(Member(m.name, t, "ext" if m.kind == "dyn" else m.kind, size, m.sizer))
        return Struct(n.name, out)

    def unique(self, names):
        if len(set(names)) < len(names):
            raise Refused("names repeat")

    def sizer(self, n, i, m):
        found = [x for x in n.members[:i] if x.name == m.sizer]
        if not found:
            if self.open == "renamed field is a sizer":
                raise Refused("sizer gone")
            raise Refused("no sizer %s" % m.sizer)
        t = self.type(found[0].type).base()
        if found[0].kind != "plain" or not isinstance(t, ref.Scalar) or t.is_float:
            raise Refused("sizer %s" % m.sizer)

    def all(self):
        self.unique([n.name for n in self.schema.nodes] + [e for n in self.schema.nodes if n.what == "enum"
                                                           for e, _ in n.members])
        return dict((n.name, self.type(n.name)) for n in self.schema.nodes if n.what != "constant")


class Meaning(object):
    """types by name, or None and why; open when the compiler may decide otherwise."""

    def __init__(self, schema, script):
        self.types, self.why, self.open = None, None, None
        try:
            result = run(schema, script)
        except Refused as e:
            self.why = str(e)
            return
        self.nodes = result.nodes
        resolver = Resolver(result)
        try:
            self.types = resolver.all()
        except Refused as e:
            self.why = str(e)
        self.open = resolver.open
