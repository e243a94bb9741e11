"""C17: isar XML, where needed with a patch, and prophy text give the same wire layout."""
import copy
import itertools
import os

from .. import core, cppside, files, frontend, isarside, patches, pyside, ref, schemas, space
from ..isarside import Style
from ..pyside import hexs
from ..ref import Const, Member, SCALARS, Struct

LIB = space.library()
MOST_VALUES = 14


# --------------------------------------------------------------------------
# the same schema in both languages

def compile_isar(xml, rules, directory, outputs=("python",), name="schema"):
    """Runs prophyc on the document; returns the outcome."""
    path = os.path.join(directory, name + ".xml")
    with open(path, "w") as f:
        f.write(xml)
    args = ["--isar"]
    if rules is not None:
        with open(os.path.join(directory, "patch"), "w") as f:
            f.write(rules)
        args += ["--patch", os.path.join(directory, "patch")]
    for o in outputs:
        args += ["--%s_out" % o, directory]
    return frontend.call(args + [path], deadline=120)


class Unusable(Exception):
    pass


def load_isar(decls, style, directory, outputs=("python",), constants=isarside.CONSTANTS):
    xml, rules = isarside.document(decls, style, constants)
    out = compile_isar(xml, rules if rules.strip() else None, directory, outputs)
    if out.kind != "ok":
        raise Unusable(str(out))
    return out.nodes["schema"], pyside.load_module(os.path.join(directory, "schema.py"))


def member_layout(m):
    return tuple(getattr(m, a, None) for a in ("byte_size", "alignment", "padding", "numeric_size", "kind", "optional",
                                               "greedy"))


def layout(node):
    """What the generators work with: sizes and alignments of a node and of its members."""
    kind = type(node).__name__
    own = (kind,) + tuple(getattr(node, a, None) for a in ("byte_size", "alignment", "kind"))
    return own + tuple(member_layout(m) for m in node.members)


def layout_problem(one, other, names):
    for n in names:
        if (n in one) != (n in other):
            return "%s is in one model only" % n
        if n in one and type(one[n]).__name__ in ("Struct", "Union") and layout(one[n]) != layout(other[n]):
            return "%s in prophy %s, in isar %s" % (n, layout(one[n]), layout(other[n]))


def values_of(t):
    vs = list(space.values(t))
    return [space.default_value(t)] + vs[:MOST_VALUES // 2] + vs[MOST_VALUES // 2::max(1, 2 * len(vs) // MOST_VALUES)]


def encoding_problem(res, t, module, other=None):
    """The encodings of the values of t, by the reference, by the module and by the other one."""
    cls = getattr(module, t.name)
    twin = getattr(other, t.name) if other else None
    for v in values_of(t):
        msg = cls()
        pyside.set_value(msg, t, v)
        for e in "<>":
            res.transitions += 1
            want, got = ref.encode(t, v, e), msg.encode(e)
            if got != want:
                return "%r encodes (%s) as %s instead of %s" % (v, e, hexs(got), hexs(want))
            if not ref.tail_aligned(t, v):
                continue
            back = cls()
            back.decode(want, e)
            if not pyside.strict_eq(pyside.get_value(back, t), v):
                return "%s decodes (%s) as %r instead of %r" % (hexs(want), e, pyside.get_value(back, t), v)
        if twin:
            peer = twin()
            pyside.set_value(peer, t, v)
            if peer.encode("<") != msg.encode("<"):
                return "%r encodes as %s by one and %s by the other" % (v, hexs(peer.encode("<")), hexs(msg.encode("<")))


class Reference(object):
    """A group of cases compiled from prophy text."""

    def __init__(self, group):
        with core.Scratch() as d:
            nodes = pyside.compile_text(schemas.group_text(LIB, group), d)
            self.module = pyside.load_module(os.path.join(d, "schema.py"))
        self.nodes = dict((n.name, n) for n in nodes["schema"])


def agree(arg):
    group, styles = arg
    res = core.Result()
    undo = frontend.pool_parsers()
    try:
        reference = Reference(group)
    except Exception as e:
        undo()
        res.violation("prophy:%s" % group[0].text, "the prophy text does not compile: %s" % e, case=group[0].name)
        return res
    for style in styles:
        agree_style(res, group, style, reference)
        if len(res.violations) > 8:
            break
    undo()
    return res


def agree_style(res, group, style, reference):
    decls = LIB.decls + [d for c in group for d in c.decls]
    with core.Scratch() as d:
        try:
            nodes, module = load_isar(decls, style, d)
        except (Exception, core.Hang) as e:
            if len(group) > 1 and len(res.violations) < 4:
                half = len(group) // 2
                agree_style(res, group[:half], style, reference)
                agree_style(res, group[half:], style, reference)
                return
            xml, rules = isarside.document(group[0].decls, style, [])
            res.violation("refused:%s:%s" % (style.name, group[0].text), "what the prophy language accepts is not usable "
                          "from isar: %s: %s\n%s\n%s" % (type(e).__name__, e, xml, rules), case=group[0].name)
            return
    index = dict((n.name, n) for n in nodes)
    problem = layout_problem(reference.nodes, index, [x.name for x in LIB.decls])
    if problem:
        res.violation("library:%s" % style.name, "%s: %s" % (style.name, problem))
    for c in group:
        res.states += 1
        res.traces += 1
        problem = layout_problem(reference.nodes, index, [x.name for x in c.decls])
        if not problem:
            try:
                with core.Watchdog(60):
                    problem = encoding_problem(res, c.top, module, reference.module)
            except (Exception, core.Hang) as e:
                problem = "the generated class raises %s: %s" % (type(e).__name__, e)
        if problem:
            xml, rules = isarside.document(c.decls, style, [])
            res.violation("agree:%s:%s" % (style.name, c.text), "%s\n%s%s" % (problem, xml, rules), case=c.name,
                          schema=c.text, xml=xml, patch=rules)
            continue
        for m in c.top.members if isinstance(c.top, ref.Struct) else []:
            res.outcomes["%s %s" % (m.kind, style.form(m.kind, c.top.members.index(m)).__name__)] += 1
        if res.traces % 3000 == 1:
            res.sample("%s, %s:\n%s%s" % ((c.text, style.name) + isarside.document(c.decls, style, [])))


def agree_tasks(thorough):
    tasks = []
    few = [Style(n) for n in range(18)]
    many = [Style(n, s) for s in (0, 1, 2) for n in range(9)]
    for group in core.chunks(list(space.singles(LIB)), 80):
        tasks += [(group, few[k:k + 3]) for k in range(0, len(few), 3)]
    for group in core.chunks(list(space.core_pairs(LIB)), 160):
        tasks += [(group, many[k:k + 3]) for k in range(0, len(many), 3)]
    for group in core.chunks(list(space.wrapped_singles(LIB)), 160):
        tasks += [(group, many[k:k + 3]) for k in range(0, 9 if not thorough else len(many), 3)]
    for group in core.chunks([c for c in space.shared_sizer_cases(LIB)][::1 if thorough else 8], 120):
        tasks += [(group, few[k:k + 3]) for k in range(0, 6, 3)]
    if thorough:
        for group in core.chunks(list(space.full_pairs(LIB)) + list(space.tiny_triples(LIB)), 240):
            tasks += [(group, many[k:k + 3]) for k in range(0, len(many), 3)]
        for group in core.chunks(list(space.core_triples(LIB)), 240):
            tasks += [(group, [Style(k % 9, 1)]) for k in range(3)]
    return [(agree, t) for t in tasks]


# --------------------------------------------------------------------------
# patch scripts

F, N = patches.Field, patches.Node


def common():
    return [N("constant", "K", number=2), N("enum", "E", [("E_X", 3), ("E_Y", 7)]), N("typedef", "T", target="u16"),
            N("struct", "F", [F("x", "u8"), F("y", "u16")]),
            N("struct", "D", [F("n", "u8"), F("x", "u16", "dyn", sizer="n")])]


def base(*fields):
    return N("struct", "S", fields)


BASES = {
    "plain": [base(F("a", "u8"), F("b", "u16"), F("c", "u32"))],
    "fixed": [base(F("a", "u8"), F("b", "u16", "fixed", "2"), F("c", "u8", "opt"))],
    "dynamic": [base(F("a", "u8"), F("b", "u16", "dyn", sizer="a"), F("c", "u64"))],
    "limited": [base(F("a", "u32"), F("b", "u8", "xlim", "3", "a"), F("c", "u16"))],
    "union": [N("union", "S", [(1, F("a", "u8")), (2, F("b", "F")), (5, F("c", "u64"))])],
    "composite": [base(F("a", "E"), F("b", "F"), F("c", "D"))],
    "used": [base(F("a", "u8"), F("b", "u32"), F("c", "T", "fixed", "K")), N("struct", "Q", [F("q", "u8"), F("s", "S")])],
    "counted": [base(F("a", "u8"), F("b", "F"), F("c", "u64")),
                N("struct", "Q", [F("q", "u8"), F("s", "S", "dyn", sizer="q"), F("t", "u8")])],
    "arm": [base(F("a", "u8"), F("b", "u8"), F("c", "u64")), N("union", "Q", [(1, F("q", "u8")), (2, F("s", "S"))])],
}
UNKNOWN = "Zed"


def schema_of(name):
    return patches.Schema(common() + copy.deepcopy(BASES[name]))


def member_xml(node, i):
    m = node.members[i]
    if i + 1 < len(node.members) and node.members[i + 1].kind == "xlim":
        return ""
    if m.kind == "xlim":
        return isarside.member(m.name, m.type, dict(isVariableSize="true", size=m.n, variableSizeFieldName=m.sizer,
                                                    variableSizeFieldType=node.members[i - 1].type))
    dimension = {"fixed": dict(size=m.n), "dyn": dict(variableSizeFieldName="@%s" % m.sizer)}.get(m.kind)
    return isarside.member(m.name, m.type, dimension, **({"optional": "true"} if m.kind == "opt" else {}))


def node_xml(n):
    if n.what == "constant":
        return isarside.tag("constant", name=n.name, value=n.number)
    if n.what == "typedef":
        return isarside.tag("typedef", name=n.name, type=n.target)
    if n.what == "enum":
        return isarside.tag("enum", "".join(isarside.tag("enum-member", name=a, value=b) for a, b in n.members), name=n.name)
    if n.what == "union":
        return isarside.tag("union", "".join(isarside.member(m.name, m.type, discriminatorValue=d) for d, m in n.members),
                            name=n.name)
    return isarside.tag("struct", "".join(member_xml(n, i) for i in range(len(n.members))), name=n.name)


def schema_xml(schema):
    return "<xml>\n%s\n</xml>\n" % "\n".join(node_xml(n) for n in schema.nodes)


def full_rules(target="S"):
    """Every action with every parameter of the alphabets, and with wrong numbers of them."""
    fields = ["a", "b", "c", "zz"]
    out = []
    for f in fields:
        out += [("type", f, t) for t in ("u8", "u64", "i16", "r32", "E", "T", "F", "D", "S", "Nope")]
        out += [("remove", f), ("greedy", f)]
        out += [("static", f, n) for n in ("1", "3", "K", "E_X", "0", "-1", "zz", "5000000000")]
        out += [(action, f, s) for action in ("dynamic", "limited") for s in fields]
        out += [("rename", f, n) for n in ("d", "a", "c")]
    for i in ("0", "1", "2", "3", "4", "999", "-1", "x", "1.5"):
        out += [("insert", i, n, t) for n, t in (("d", "u8"), ("d", "u64"), ("a", "u8"), ("d", "F"), ("d", "D"), ("d", "Nope"))]
    out += [("struct",), ("rename", "R"), ("rename", "F"), ("rename", "E"), ("rename", "E_X"), ("rename", "S")]
    out += [("type",), ("type", "a"), ("type", "a", "u8", "u8"), ("insert",), ("insert", "0"), ("insert", "0", "d"),
            ("insert", "0", "d", "u8", "u8"), ("remove",), ("remove", "a", "b"), ("dynamic", "b"), ("dynamic", "b", "a", "a"),
            ("dynamic",), ("limited", "b"), ("limited",), ("limited", "b", "a", "a"), ("greedy",), ("greedy", "c", "c"),
            ("static",), ("static", "c"), ("static", "c", "2", "2"), ("struct", "a"), ("rename",), ("rename", "a", "d", "e"),
            ("turn", "a"), ("Type", "a", "u8"), ("",), ()]
    return [(target,) + r for r in out]


def middle_rules():
    """One rule of every sort per field: for scripts of two rules."""
    out = []
    for f in "abc":
        out += [("type", f, "u64"), ("type", f, "D"), ("remove", f), ("greedy", f), ("static", f, "3"), ("rename", f, "d")]
        out += [(action, f, s) for action in ("dynamic", "limited") for s in "abd" if s != f]
    for i in ("0", "1", "999"):
        out += [("insert", i, "d", "u8"), ("insert", i, "e", "F")]
    out += [("type", "d", "u16"), ("remove", "d"), ("static", "d", "K"), ("greedy", "d"), ("dynamic", "d", "a"), ("dynamic", "e", "d"),
            ("rename", "d", "a"), ("struct",), ("rename", "R")]
    return [("S",) + r for r in out]


def small_rules():
    """For scripts of three rules."""
    out = [("insert", "0", "d", "u8"), ("insert", "999", "e", "u64"), ("remove", "a"), ("remove", "c"), ("static", "c", "3"),
           ("static", "b", "3"), ("limited", "c", "a"), ("limited", "b", "d"), ("dynamic", "c", "b"), ("dynamic", "b", "d"),
           ("greedy", "c"), ("greedy", "e"), ("type", "a", "u16"), ("type", "b", "F"), ("rename", "c", "d"), ("rename", "R"),
           ("struct",)]
    return [("S",) + r for r in out]


def other_rules():
    """Rules for the other nodes, for absent ones, and blank lines."""
    out = [()]
    for n in ("E", "T", "K", "F", "D", "Q", UNKNOWN, "R", "E_X", "s"):
        out += [(n,) + r for r in (
            ("type", "x", "u8"), ("insert", "0", "d", "u8"), ("remove", "x"), ("dynamic", "y", "x"), ("greedy", "y"), ("static", "y", "2"),
            ("limited", "x", "n"), ("struct",), ("rename", "X"), ("rename", "x", "z"), ("turn", "x"), ("type",), ())]
    return out


def scripts(thorough):
    """(base, script) points, shortest scripts first."""
    names = sorted(BASES)
    out = [(b, ()) for b in names]
    full, middle, small, other = full_rules(), middle_rules(), small_rules(), other_rules()
    out += [(b, (r,)) for b in names for r in full + other]
    out += [(b, p) for b in names for p in itertools.product(middle, repeat=2)]
    out += [(b, p) for b in ("plain", "used") for q in itertools.product(other, small) for p in (q, q[::-1])]
    out += [(b, p) for b in ("plain", "fixed", "limited", "union", "used") for p in itertools.product(small, repeat=3)]
    if thorough:
        out += [(b, p) for b in names for p in itertools.product(full, repeat=2)]
        out += [(b, p) for b in names for p in itertools.product(middle, small, middle)]
        out += [(b, p) for b in ("plain", "union") for p in itertools.product(small, repeat=4)]
    return ([(b, s, "isar") for b, s in out] +
            [(b, s, "prophy") for b, s in out if b != "limited" and (len(s) < 2 or thorough or b in ("plain", "union"))])


def needed(types, name, out):
    """The declarations a type is made of, first things first."""
    t = types.get(name)
    if t is None or t in out:
        return out
    parts = [t.target] if isinstance(t, ref.Typedef) else [m.type for m in t.members] if isinstance(t, ref.Struct) else \
        [a[1] for a in t.arms] if isinstance(t, ref.Union) else []
    for p in parts:
        needed(types, p.name, out)
    out.append(t)
    return out


def model_problem(types, index, name):
    """The sizes of the nodes against the reference ones."""
    t, n = types[name], index.get(name)
    if n is None:
        return "%s is not in the model" % name
    if n.alignment != t.align:
        return "alignment of %s is %s instead of %s" % (name, n.alignment, t.align)
    if t.stiffness == ref.FIXED and n.byte_size != t.size:
        return "size of %s is %s instead of %s" % (name, n.byte_size, t.size)
    if isinstance(t, ref.Struct):
        if n.kind != t.stiffness:
            return "kind of %s is %s instead of %s" % (name, n.kind, t.stiffness)
        names = [f.name for f in t.wire]
        if [m.name for m in n.members] != names:
            return "members of %s are %s instead of %s" % (name, [m.name for m in n.members], names)


_texts = {}


def text_nodes(types):
    """The model of the same types written in the prophy language, None when it lacks words for them."""
    order = []
    for name in sorted(types):
        needed(types, name, order)
    if any(m.kind == "xlim" for t in order if isinstance(t, ref.Struct) for m in t.members):
        return None
    text = ref.render_schema(order)
    if text not in _texts:
        if len(_texts) > 3000:
            _texts.clear()
        with core.Scratch() as d:
            path = os.path.join(d, "schema.prophy")
            with open(path, "w") as f:
                f.write(text)
            out = frontend.call(["--python_out", d, path])
            if out.kind != "ok":
                raise Unusable("%s\n%s" % (out, text))
            _texts[text] = dict((n.name, n) for n in out.nodes["schema"])
    return _texts[text]


def compile_prophy(schema, rules, directory):
    """The schema in the prophy language, given to prophyc along with the patch."""
    types = patches.Meaning(schema, []).types
    order = [ref.Const(n.name, n.number) for n in schema.nodes if n.what == "constant"]
    for name in sorted(types):
        needed(types, name, order)
    for name, text in (("schema.prophy", ref.render_schema(order)), ("patch", rules)):
        with open(os.path.join(directory, name), "w") as f:
            f.write(text)
    return frontend.call(["--patch", os.path.join(directory, "patch"), "--python_out", directory,
                          os.path.join(directory, "schema.prophy")])


def patch_problem(res, name, script, language):
    schema = schema_of(name)
    meaning = patches.Meaning(schema, script)
    rules = "".join(" ".join(words) + "\n" for words in script)
    with core.Scratch() as d:
        out = compile_isar(schema_xml(schema), rules, d) if language == "isar" else compile_prophy(schema, rules, d)
        if out.kind not in ("ok", "error"):
            return "prophyc ended with %s" % out
        if meaning.types is None:
            if out.kind == "ok" and not meaning.open:
                return "accepted, although it can not be applied: %s" % meaning.why
            res.outcomes["refused" if out.kind == "error" else "open: %s" % meaning.open] += 1
            return
        if out.kind == "error":
            if meaning.open:
                res.outcomes["refused, open"] += 1
                return
            return "refused: %s" % out
        index = dict((n.name, n) for n in out.nodes["schema"])
        composites = [n for n in sorted(meaning.types) if meaning.types[n].is_composite and not
                      isinstance(meaning.types[n], ref.Typedef)]
        for n in composites:
            problem = model_problem(meaning.types, index, n)
            if problem:
                return problem
        twins = text_nodes(meaning.types)
        if twins:
            problem = layout_problem(twins, index, composites)
            if problem:
                return problem
        module = pyside.load_module(os.path.join(d, "schema.py"))
        for n in composites:
            if n in ("F", "D") and not any(words[:1] == (n,) for words in script):
                continue
            problem = encoding_problem(res, meaning.types[n], module)
            if problem:
                return "%s: %s" % (n, problem)
        res.outcomes["applied %d, %s" % (len(script), "as text" if twins else "no text")] += 1

# --------------------------------------------------------------------------
# spellings: numbers, constants, dimensions, optional arrays, typedefs, included files

NUMBERS = [("0", 0), ("1", 1), ("7", 7), ("0x10", 16), ("-1", 0xffffffff), ("-2", 0xfffffffe), ("-2147483648", 0x80000000),
           ("-0x10", 0xfffffff0), ("4294967294", 0xfffffffe), ("0xABCD", 0xabcd), ("2147483648", 0x80000000), ("K3", 3),
           ("K3+1", 4), ("shiftLeft(1, 4)", 16), ("shiftLeft(1,K3)", 8), ("bitMaskOr(K3,8)", 11),
           ("bitMaskOr(shiftLeft(1,8),shiftLeft(1,0))", 257), ("shiftLeft(bitMaskOr(1,2),2)", 12), ("(K3)", 3), ("K3*K3", 9),
           ("-1+K3", 2), ("0xffffffff", 0xffffffff), (" 5 ", 5)]
CONSTANTS = [Const("K3", "3")]


def enum_points():
    for (a, x), (b, y) in itertools.permutations(NUMBERS, 2):
        if x != y:
            yield "enum %s, %s" % (a, b), [ref.Enum("V", [("V_A", x), ("V_B", y)])], {"V_A": a, "V_B": b}
    # numbers next to powers of two, spelled in both ways
    for sign, style in itertools.product((1, -1), ("%d", "0x%x", "0X%X")):
        values = sorted(set((1 << k) + d for k in range(33) for d in (-1, 0, 1)))
        values = [v for v in values if v < 1 << 32] if sign > 0 else [v for v in values if 0 < v <= 1 << 31]
        spelled = dict(("V_%d" % v, "-" * (sign < 0) + style % v) for v in values)
        yield "enum of many %s%s" % ("-" * (sign < 0), style), [ref.Enum("V", [("V_%d" % v, sign * v & 0xffffffff) for v in values])], spelled


def arm_points():
    for (a, x), (b, y) in itertools.permutations([p for p in NUMBERS if "-" not in p[0] and "shift" not in p[0] and
                                                  "bit" not in p[0]] + [("V_A", 70000)], 2):
        if x != y:
            yield "arms %s, %s" % (a, b), [ref.Enum("V", [("V_A", 70000)]), ref.Union("W", [
                (x, SCALARS["u8"], "p"), (y, SCALARS["u64"], "q")])], {"p": a, "q": b}


SIZES = [("1", 1), ("2", 2), ("K3", 3), ("K3+1", 4), ("1+1", 2), ("K3-1", 2), ("6/K3", 2), ("1<<1", 2), ("(2)", 2), ("0x2", 2), ("K3*2", 6),
         ("7-K3-1", 3), (" 2 ", 2), ("12/2/3", 2), ("V_A", 3), ("-1+3", 2)]


def size_points():
    """Sizes of arrays, one and two of them, in the element and in the rule."""
    v = ref.Enum("V", [("V_A", 3)])
    for a, x in SIZES:
        for kind in ("fixed", "lim"):
            yield "size %s" % a, [v, Struct("W", [Member("z", SCALARS["u16"], kind, x)])], {"z": dict(size=a)}
            for b, y in SIZES:
                yield "size %s size2 %s" % (a, b), [v, Struct("W", [Member("z", SCALARS["u16"], kind, x * y)])], {
                    "z": dict(size=a, size2=b)}
        if " " not in a:
            yield "rule %s" % a, [v, Struct("W", [Member("z", SCALARS["u16"], "fixed", x)])], {"z": None, "rule": "W static z " + a}


def operands(depth):
    if not depth:
        return [("1", 1), ("2", 2), ("K3", 3)]
    return operands(0) + list(constant_expressions(depth))


def constant_expressions(depth):
    for (a, x), (b, y) in itertools.product(operands(depth - 1), repeat=2):
        yield "shiftLeft(%s,%s)" % (a, b), x << min(y, 4000)
        yield "bitMaskOr(%s, %s)" % (a, b), x | y
        yield "(%s+%s)" % (a, b), x + y
        yield "(%s)*(%s)" % (a, b) if depth == 1 else "((%s)*(%s))" % (a, b), x * y


def constant_points(thorough):
    out = [p for p in operands(2 if thorough else 1) + [p for p in constant_expressions(2)] if p[1] < 1 << 31]
    for a, x in out + [("-1", -1), ("0x7fffffff", 0x7fffffff), ("-5+K3", -2), ("1+2*K3", 7), ("7-2-1", 4), ("9/2*2", 8)]:
        yield a, x


def optional_array_points():
    """An optional array is a flag of its own and the array."""
    U = SCALARS
    for kind, t, tail in itertools.product(("fixed", "dyn", "lim", "ext"), ("u8", "u16", "u64", "F2b"), ("", "u8", "u64")):
        for form in isarside.FORMS[kind]:
            if form.__name__ not in ("fixed", "fixed_product", "dyn", "dyn_named", "dyn_typed", "dyn_at", "lim", "lim_named", "ext_at",
                                     "ext_inline", "dyn_this"):
                continue
            yield kind, t, tail, form


def with_numbers(decls, spelled):
    """XML of enums and unions with the numbers spelled as asked."""
    texts = [isarside.render(c, Style(0))[0] for c in CONSTANTS]
    rules = []
    for d in decls:
        if isinstance(d, ref.Enum):
            texts.append(isarside.tag("enum", "".join(isarside.tag("m", name=n, value=spelled.get(n, v)) for n, v in d.members),
                                      name=d.name))
        elif isinstance(d, ref.Union):
            texts.append(isarside.tag("union", "".join(isarside.member(n, t.name, discriminatorValue=spelled[n])
                                                       for _, t, n in d.arms), name=d.name))
        elif isinstance(d, Struct):
            rows = []
            for m in d.members:
                dim = spelled.get(m.name)
                if dim and m.kind == "lim":
                    dim = dict(dim, isVariableSize="true")
                rows.append(isarside.member(m.name, m.type.name, dim))
            texts.append(isarside.tag("struct", "".join(rows), name=d.name))
            rules += [spelled["rule"]] if "rule" in spelled else []
    return "<xml>\n%s\n</xml>\n" % "\n".join(texts), "\n".join(rules) + "\n" if rules else None


def spelling_problem(res, decls, spelled):
    """Enums get a struct around them, so that their encodings can be seen."""
    xml, rules = with_numbers(decls, spelled)
    user = []
    if isinstance(decls[-1], ref.Enum):
        user = [Struct("H", [Member("h", decls[-1]), Member("i", SCALARS["u8"])])]
        xml = xml.replace("</xml>", isarside.render(user[0], Style(0))[0] + "</xml>")
    with core.Scratch() as d:
        out = compile_isar(xml, rules, d)
        if out.kind != "ok":
            return "refused: %s\n%s" % (out, xml)
        index = dict((n.name, n) for n in out.nodes["schema"])
        module = pyside.load_module(os.path.join(d, "schema.py"))
        twins = text_nodes(dict((t.name, t) for t in decls + user))
        problem = layout_problem(twins, index, [t.name for t in decls + user])
        for t in decls + user:
            if isinstance(t, ref.Enum):
                for n, v in t.members:
                    if getattr(module, n) != v:
                        problem = problem or "%s is %s instead of %s" % (n, getattr(module, n), v)
            else:
                problem = problem or encoding_problem(res, t, module)
        return problem and "%s\n%s" % (problem, xml)


def constant_problem(res, text, value):
    xml = "<xml>" + isarside.tag("constant", name="Q", value=text) + isarside.tag("constant", name="K3", value="3")
    fits = 0 < value < 40
    if fits:
        xml += isarside.tag("struct", isarside.member("z", "u8", dict(size="Q")), name="W")
    if 0 <= value:
        xml += isarside.tag("enum", isarside.tag("m", name="V_A", value="Q") + isarside.tag("m", name="V_B", value="K3+%d" % (
            value if value < 1 << 20 else 1)), name="V")
    with core.Scratch() as d:
        out = compile_isar(xml + "</xml>\n", None, d)
        if out.kind != "ok":
            return "refused: %s\n%s" % (out, xml)
        module = pyside.load_module(os.path.join(d, "schema.py"))
        if module.Q != value:
            return "constant %s is %r instead of %r" % (text, module.Q, value)
        if 0 <= value and module.V_A != value:
            return "enumerator of constant %s is %r" % (text, module.V_A)
        if fits:
            return encoding_problem(res, Struct("W", [Member("z", SCALARS["u8"], "fixed", value)]), module)


def optional_array_problem(res, kind, t, tail, form):
    members = [Member("lead", SCALARS["u8"]), Member("has_z", ref.U32)]
    n = 4 if kind in ("fixed", "lim") else None
    s = isarside.Sheet("W", False)
    element = LIB.get(t)
    z = Member("z", element, kind, n, "z_n" if kind == "ext" else None)
    sizer = Member("z_n", SCALARS["u16"])
    if kind == "ext":
        if form is isarside.ext_inline:
            members.append(sizer)
        else:
            members.insert(1, sizer)
            s.add(isarside.member("z_n", "u16"))
        form(s, z, t, sizer)
    else:
        form(s, z, t)
    if form.__name__ in ("dyn_at", "dyn_this"):   # the flag comes between the sizer and the array
        members.insert(1, Member("cz", ref.U32))
        z = Member("z", element, "ext", sizer="cz")
    members.append(z)
    s.xml[-1] = s.xml[-1].replace("<member ", '<member optional="true" ')
    rows = [isarside.member("lead", "u8")] + s.xml
    if tail:
        members.append(Member("tail", SCALARS[tail]))
        rows.append(isarside.member("tail", tail))
    w = Struct("W", members)
    xml = "<xml>%s%s%s</xml>" % ("".join(isarside.render(c, Style(0))[0] for c in isarside.CONSTANTS),
                                 isarside.render(LIB.get("F2b"), Style(0))[0], isarside.tag("struct", "".join(rows), name="W"))
    with core.Scratch() as d:
        out = compile_isar(xml, None, d)
        if out.kind != "ok":
            return "refused: %s\n%s" % (out, xml)
        types = {"F2b": LIB.get("F2b"), "W": w}
        problem = layout_problem(text_nodes(types), dict((x.name, x) for x in out.nodes["schema"]), ["W"])
        problem = problem or encoding_problem(res, w, pyside.load_module(os.path.join(d, "schema.py")))
        return problem and "%s\n%s" % (problem, xml)


def include_points():
    """Two files, one including the other; where the rules go and how the files are called."""
    rules = [("Inner", ("type", "x", "u16")), ("Inner", ("static", "x", "3")), ("Inner", ("insert", "0", "d", "u8")),
             ("Inner", ("greedy", "x")), ("Inner", ("rename", "x", "w")), ("Outer", ("insert", "999", "d", "u8")),
             ("Outer", ("type", "y", "u64")), ("Absent", ("remove", "x")), ("common", ("remove", "x")), ("main", ("greedy", "x")),
             ("Inner", ("limited", "x", "x")), ("Outer", ("remove", "zz"))]
    for stem in ("common", "Inner", "Outer", "Absent"):
        for k in range(3):
            for script in itertools.product(rules, repeat=k):
                for last in (True, False):
                    yield stem, tuple((n,) + r for n, r in script), last


def include_problem(res, stem, script, last):
    inner = N("struct", "Inner", [F("v", "u8"), F("x", "u32")])
    outer = N("struct", "Outer", [F("y", "u8")] + ([] if last else [F("i", "Inner")]) + [F("z", "u32", "opt")] +
              ([F("i", "Inner")] if last else []))
    schema = patches.Schema([inner, outer])
    meaning = patches.Meaning(schema, script)
    with core.Scratch() as d:
        with open(os.path.join(d, stem + ".xml"), "w") as f:
            f.write("<xml>%s</xml>" % node_xml(inner))
        with open(os.path.join(d, "main.xml"), "w") as f:
            f.write('<xml xmlns:xi="http://www.w3.org/2001/XInclude"><xi:include href="%s.xml"/>%s</xml>' % (stem, node_xml(outer)))
        with open(os.path.join(d, "patch"), "w") as f:
            f.write("".join(" ".join(w) + "\n" for w in script))
        args = ["--isar", "--patch", os.path.join(d, "patch"), "--python_out", d]
        out = frontend.call(args + [os.path.join(d, stem + ".xml"), os.path.join(d, "main.xml")])
        if meaning.types is None:
            return None if out.kind == "error" else "accepted, although it can not be applied: %s" % meaning.why
        if out.kind != "ok":
            return "refused: %s" % out
        package = files.Package(d)
        try:
            for name in (stem, "main"):
                os.rename(os.path.join(d, name + ".py"), os.path.join(package.path, name + ".py"))
            main, sub = package.load("main"), package.load(stem)
            return (encoding_problem(res, meaning.types["Inner"], sub) or encoding_problem(res, meaning.types["Outer"], main))
        finally:
            package.close()


FAMILIES = {"spell": spelling_problem, "constant": constant_problem, "optional": optional_array_problem, "include": include_problem,
            "patch": patch_problem}


def walk(arg):
    """A chunk of points of one family."""
    family, points = arg
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points:
        res.states += 1
        res.traces += 1
        res.transitions += 1
        key, args = p
        try:
            with core.Watchdog(60):
                problem = FAMILIES[family](res, *args)
        except (Exception, core.Hang) as e:
            problem = "%s: %s" % (type(e).__name__, e)
        if problem:
            res.violation("%s:%s" % (family, key), "%s %s\n%s" % (family, key, problem), case=family, point=key)
            if len(res.violations) > 300:
                break
        elif family != "patch":
            res.outcomes[family] += 1
    undo()
    return res


def script_key(base_, script, language):
    return "%s:%s: %s" % (language, base_, "; ".join(" ".join(w) for w in script))


def walk_tasks(thorough):
    points = {
        "spell": [(n, (d, s)) for n, d, s in itertools.chain(enum_points(), arm_points(), size_points())],
        "constant": [(a, (a, x)) for a, x in constant_points(thorough)],
        "optional": [("%s %s %s %s" % (k, t, tail, f.__name__), (k, t, tail, f)) for k, t, tail, f in optional_array_points()],
        "include": [("%s.xml%s: %s" % (a, " last" if c else "", "; ".join(" ".join(w) for w in b)), (a, b, c))
                    for a, b, c in include_points()],
        "patch": [(script_key(b, s, lang), (b, s, lang)) for b, s, lang in scripts(thorough)]}
    return [(walk, (family, chunk)) for family in sorted(points) for chunk in core.chunks(points[family], 300)]


# --------------------------------------------------------------------------
# the C++ codec generated from isar

DRIVER = None


def cpp(arg):
    group, style = arg
    res = core.Result()
    decls = LIB.decls + [d for c in group for d in c.decls]
    with core.Scratch() as d:
        try:
            xml, rules = isarside.document(decls, style)
            out = compile_isar(xml, rules, d, ("cpp_full", "cpp"))
            if out.kind != "ok":
                raise Unusable(str(out))
            with open(os.path.join(d, "main.cpp"), "w") as f:
                f.write(cppside.driver_source(LIB, group, None))
            flags = cppside.FLAGS + ["-I" + cppside.INCLUDE, "-I" + cppside.HERE, "-I" + d]
            cppside.compiler(flags + ["main.cpp", DRIVER, "-o", "driver"], d)
            cppside.compiler(flags + ["-fsyntax-only", "schema.pp.cpp"], d)
        except Exception as e:
            if len(group) > 1:
                half = len(group) // 2
                first = cpp((group[:half], style))
                if not first.violations:
                    first.merge(cpp((group[half:], style)))
                return first
            res.violation("cpp:%s:%s" % (style.name, group[0].text), "the C++ generated from isar is not usable: %s\n%s\n%s" % (
                (e,) + isarside.document(group[0].decls, style, [])), case="cpp " + group[0].name)
            return res
        requests, context = [], []
        for i, c in enumerate(group):
            for v in values_of(c.top):
                if ref.tail_aligned(c.top, v):
                    for e in "lb":
                        data = ref.encode(c.top, v, "<" if e == "l" else ">")
                        requests.append("R %d %s %s" % (i, e, cppside.hexarg(data)))
                        context.append((c, v, e, data))
        replies = cppside.converse(os.path.join(d, "driver"), requests)
    seen = set()
    for (c, v, e, data), reply in zip(context, replies):
        res.transitions += 1
        parts = reply.split(" ")
        if (parts[0] != "1" or cppside.unhex(parts[-1]) != data) and c.name not in seen:
            seen.add(c.name)
            res.violation("cpp:%s:%s" % (style.name, c.text), "%r: %s (%s) come back from the C++ generated from isar as %s\n%s\n%s" % (
                (v, hexs(data), e, reply) + isarside.document(c.decls, style, [])), case="cpp " + c.name)
    for c in group:
        res.states += 1
        res.traces += 1
        res.outcomes["C++"] += c.name not in seen
    return res


def cpp_tasks(thorough):
    cases = [c for c in space.gather(LIB, space.singles, space.wrapped_singles) if cppside.cpp_ok(c)]
    if thorough:
        cases += [c for c in space.core_pairs(LIB) if cppside.cpp_ok(c)]
    groups = core.chunks(cases, 45)
    return [(cpp, (g, Style((k + n) % 9, n % 2))) for n in range(9 if thorough else 1) for k, g in enumerate(groups)]


def dispatch(arg):
    func, points = arg
    return func(points)


def check(ctx):
    tasks = agree_tasks(ctx.thorough)
    tasks += walk_tasks(ctx.thorough)
    global DRIVER
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=[])
        return core.parallel(dispatch, ctx.pick(cpp_tasks(ctx.thorough) + tasks), ctx.seed)


def main():
    return core.run("C17", check, assumptions=ASSUMPTIONS)


ASSUMPTIONS = [
    "bounded: the schema and value space of mc/space.py, the forms of mc/isarside.py, patch scripts up to three rules (four thorough)",
    "mc/patches.py states the patch rules of docs/other_schemas.rst correctly; where the documentation leaves the outcome open "
    "(negative index, renaming a sizer or a node in use, limited twice, no members left) both a refusal and the described result pass",
    "names alike enough for the lenient search of sizers (numOf..., plural) are left to C12"]
