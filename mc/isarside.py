"""Writes schemas as isar XML, where needed completed by a patch.

Every kind of member has several forms: ways to say it with the isar elements, with the
patch rules or with both. A style picks one form for every member and every declaration.
"""
from . import ref
from .ref import BYTES, Const, Enum, Member, Struct, Typedef, Union

PRIMITIVE = {"u8": "8 bit integer unsigned", "u16": "16 bit integer unsigned", "u32": "32 bit integer unsigned",
             "u64": "64 bit integer unsigned", "i8": "8 bit integer signed", "i16": "16 bit integer signed",
             "i32": "32 bit integer signed", "i64": "64 bit integer signed", "float": "32 bit float",
             "double": "64 bit float"}


def type_name(t):
    return "byte" if t is BYTES else {"float": "r32", "double": "r64"}.get(t.name, t.name)


def quote(text):
    return str(text).replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def tag(name_, body=None, **attributes):
    text = "<" + name_ + "".join(' %s="%s"' % (k, quote(v)) for k, v in attributes.items() if v is not None)
    return text + "/>" if body is None else "%s>%s</%s>" % (text, body, name_)


def member(name, type_, dimension=None, **attributes):
    return tag("member", None if dimension is None else tag("dimension", **dimension), name=name, type=type_, **attributes)


class Sheet(object):
    """One struct being written: its XML members, the patch rules and how many members there are so far."""

    def __init__(self, node, message):
        self.node, self.message = node, message
        self.xml, self.rules, self.count = [], [], 0
        self.arms = []   # the same members as arms, as long as they are all plain

    def add(self, xml, members=1):
        self.xml.append(xml)
        self.count += members

    def rule(self, *words):
        self.rules.append(" ".join([self.node] + [str(w) for w in words]))

    def insert(self, name, type_):
        self.rule("insert", self.count, name, type_)
        self.count += 1


def upper(name):
    return name[0].upper() + name[1:]


# forms: functions of (sheet, member, type name); the ones for arrays with a sizer get it as a 4th argument

def plain(s, m, t):
    s.add(member(m.name, t))


def plain_typed(s, m, t):
    other = "u64" if t != "u64" else "u8"
    s.add(member(m.name, other))
    s.rule("type", m.name, t)


def plain_inserted(s, m, t):
    s.insert(m.name, t)


def plain_renamed(s, m, t):
    s.add(member("was_" + m.name, t))
    s.rule("rename", "was_" + m.name, m.name)


def plain_after_junk(s, m, t):
    s.add(member("junk_" + m.name, "u64", dict(size=3)))
    s.rule("remove", "junk_" + m.name)
    s.count -= 1
    s.add(member(m.name, t, optional="false"))


def opt(s, m, t):
    s.add(member(m.name, t, optional="true"))


def opt_upper(s, m, t):
    s.add(member(m.name, t, optional="TRUE"))


def opt_renamed_typed(s, m, t):
    s.add(member("was_" + m.name, "u64", optional="True"))
    s.rule("rename", "was_" + m.name, m.name)
    s.rule("type", m.name, t)


def fixed(s, m, t):
    s.add(member(m.name, t, dict(size=m.n)))


def fixed_product(s, m, t):
    a = next(k for k in (2, 3, 5, 1) if m.n % k == 0)
    s.add(member(m.name, t, dict(size=a, size2=m.n // a)))


def fixed_constant(s, m, t):
    s.add(member(m.name, t, dict(size="K_%d" % m.n)))


def fixed_patched(s, m, t):
    s.add(member(m.name, t))
    s.rule("static", m.name, m.n)


def fixed_over_optional(s, m, t):
    s.add(member(m.name, t, optional="true"))
    s.rule("static", m.name, "K_%d" % m.n)


def fixed_over_dynamic(s, m, t):
    s.add(member(m.name, t, dict(isVariableSize="true")), 2)
    s.rule("static", m.name, m.n)
    s.rule("remove", m.name + "_len")
    s.count -= 1


def fixed_resized(s, m, t):
    s.add(member(m.name, t, dict(size=m.n + 7)))
    s.rule("static", m.name, m.n)


def fixed_inserted(s, m, t):
    s.insert(m.name, t)
    s.rule("static", m.name, m.n)


def fixed_over_greedy(s, m, t):
    s.add(member(m.name, t))
    s.rule("greedy", m.name)
    s.rule("static", m.name, m.n)


def dyn(s, m, t):
    size = dict(size=4) if s.message else {}
    s.add(member(m.name, t, dict(isVariableSize="true", **size)), 2)


def dyn_named(s, m, t):
    s.add(member(m.name, t, dict(variableSizeFieldName="c_" + m.name, isVariableSize="true")), 2)


def dyn_typed(s, m, t):
    s.add(member(m.name, t, dict(isVariableSize="true", variableSizeFieldType="u32")), 2)


def dyn_at(s, m, t):
    s.add(member("c_" + m.name, "u32"))
    s.add(member(m.name, t, dict(isVariableSize="true", variableSizeFieldName="@c_" + m.name)))


def dyn_this(s, m, t):
    s.add(member("numOf" + upper(m.name), "u32"))
    s.add(member(m.name, t, dict(size="THIS_IS_VARIABLE_SIZE_ARRAY")))


def dyn_patched(s, m, t):
    s.add(member("c_" + m.name, "u32"))
    s.add(member(m.name, t, dict(size=1)))
    s.rule("dynamic", m.name, "c_" + m.name)


def dyn_inserted(s, m, t):
    s.insert("c_" + m.name, "u32")
    s.add(member(m.name, t))
    s.rule("dynamic", m.name, "c_" + m.name)


def dyn_over_limited(s, m, t):
    s.add(member("n_" + m.name, "u16"))
    s.add(member(m.name, t, dict(size=2)))
    s.rule("limited", m.name, "n_" + m.name)
    s.rule("dynamic", m.name, "n_" + m.name)
    s.rule("type", "n_" + m.name, "u32")


def dyn_over_greedy(s, m, t):
    s.add(member("c_" + m.name, "u32"))
    s.add(member(m.name, t))
    s.rule("greedy", m.name)
    s.rule("dynamic", m.name, "c_" + m.name)


def lim(s, m, t):
    s.add(member(m.name, t, dict(isVariableSize="true", size=m.n)), 2)


def lim_named(s, m, t):
    s.add(member(m.name, t, dict(isVariableSize="true", size="K_%d" % m.n, variableSizeFieldName="c_" + m.name,
                                 variableSizeFieldType="u32")), 2)


def lim_patched(s, m, t):
    s.add(member("c_" + m.name, "u32"))
    s.add(member(m.name, t, dict(size=m.n)))
    s.rule("limited", m.name, "c_" + m.name)


def lim_inserted(s, m, t):
    s.insert("c_" + m.name, "u32")
    s.add(member(m.name, t, dict(size=m.n)))
    s.rule("limited", m.name, "c_" + m.name)


def lim_all_patched(s, m, t):
    s.insert("c_" + m.name, "u32")
    s.insert(m.name, t)
    s.rule("static", m.name, "K_%d" % m.n)
    s.rule("limited", m.name, "c_" + m.name)


def lim_product(s, m, t):
    a = next(k for k in (2, 3, 5, 1) if m.n % k == 0)
    s.add(member(m.name, t, dict(isVariableSize="true", size=a, size2=m.n // a)), 2)


def ext_at(s, m, t, sizer):
    s.add(member(m.name, t, dict(isVariableSize="true", variableSizeFieldName="@" + m.sizer)))


def ext_at_alone(s, m, t, sizer):
    s.add(member(m.name, t, dict(variableSizeFieldName="@" + m.sizer)))


def ext_inline(s, m, t, sizer):
    s.add(member(m.name, t, dict(isVariableSize="true", variableSizeFieldName=m.sizer,
                                 variableSizeFieldType=type_name(sizer.type))), 2)


def ext_this(s, m, t, sizer):
    s.add(member(m.name, t, dict(size="THIS_IS_VARIABLE_SIZE_ARRAY")))


def ext_patched(s, m, t, sizer):
    s.add(member(m.name, t, dict(size=2)))
    s.rule("dynamic", m.name, m.sizer)


def ext_over_optional(s, m, t, sizer):
    s.add(member(m.name, t, optional="true"))
    s.rule("dynamic", m.name, m.sizer)


def greedy_patched(s, m, t):
    s.add(member(m.name, t))
    s.rule("greedy", m.name)


def greedy_over_fixed(s, m, t):
    s.add(member(m.name, t, dict(size=3)))
    s.rule("greedy", m.name)


def greedy_over_dynamic(s, m, t):
    s.add(member(m.name, t, dict(isVariableSize="true")), 2)
    s.rule("greedy", m.name)
    s.rule("remove", m.name + "_len")
    s.count -= 1


def greedy_over_optional(s, m, t):
    s.add(member(m.name, t, optional="true"))
    s.rule("greedy", m.name)


def greedy_inserted(s, m, t):
    s.rule("insert", 999, m.name, t)
    s.count += 1
    s.rule("greedy", m.name)


FORMS = {
    "plain": [plain, plain_typed, plain_inserted, plain_renamed, plain_after_junk],
    "opt": [opt, opt_upper, opt_renamed_typed],
    "fixed": [fixed, fixed_product, fixed_constant, fixed_patched, fixed_over_optional, fixed_over_dynamic,
              fixed_resized, fixed_inserted, fixed_over_greedy],
    "dyn": [dyn, dyn_named, dyn_typed, dyn_at, dyn_this, dyn_patched, dyn_inserted, dyn_over_limited, dyn_over_greedy],
    "lim": [lim, lim_named, lim_patched, lim_inserted, lim_all_patched, lim_product],
    "ext": [ext_at, ext_inline, ext_patched, ext_at_alone, ext_this, ext_over_optional],
    "greedy": [greedy_patched, greedy_over_fixed, greedy_over_dynamic, greedy_over_optional, greedy_inserted]}
NEEDS_STRUCT = (lim, lim_named, lim_product)   # in a message they would make a dynamic array
OWN_SIZER = (ext_inline, ext_this)             # the sizer belongs to one array only
STYLES = 45                                    # least common multiple of the numbers of forms is larger: see style()


class Style(object):
    """Picks the forms: the i-th member takes the (number + i*step)-th of the forms of its kind."""

    def __init__(self, number, step=0):
        self.number, self.step = number, step

    def form(self, kind, i):
        forms = FORMS[kind]
        return forms[(self.number + i * self.step) % len(forms)]

    @property
    def name(self):
        return "style %d/%d" % (self.number, self.step)


def own_sizer(struct, i):
    """The i-th member is an array, its sizer stands right before it and counts nothing else."""
    m = struct.members[i]
    return i and struct.members[i - 1].name == m.sizer and [x.sizer for x in struct.members].count(m.sizer) == 1


def render_struct(d, style):
    """(XML element, patch rules)"""
    forms = []
    for i, m in enumerate(d.members):
        form = style.form(m.kind, i)
        if form in OWN_SIZER and not own_sizer(d, i):
            form = ext_at
        forms.append(form)
    message = not any(f in NEEDS_STRUCT for f in forms) and style.number % 2 == 1
    renamed = style.number % 3 == 2
    node = "Was_" + d.name if renamed else d.name
    s = Sheet(node, message)
    if renamed and style.number % 2:
        s.rule("rename", d.name)
    for i, (m, form) in enumerate(zip(d.members, forms)):
        following = forms[i + 1] if i + 1 < len(d.members) and d.members[i + 1].sizer == m.name else None
        if following is ext_inline:
            continue
        if following is ext_this:
            s.add(member("numOf" + upper(d.members[i + 1].name), type_name(m.type)))
        elif m.name in d.sizers:
            plain(s, m, type_name(m.type))
        elif m.kind == "ext":
            sizer = [x for x in d.members if x.name == m.sizer][0]
            form(s, m, type_name(m.type), sizer)
        else:
            form(s, m, type_name(m.type))
    if not s.xml:   # an element without members is skipped, so there has to be one to remove
        s.xml.append(member("only_junk", "u8"))
        s.rules.append("%s remove only_junk" % node)
    if renamed and not style.number % 2:
        s.rule("rename", d.name)
    text = tag("message" if message else "struct", "".join("\n    " + x for x in s.xml) + "\n", name=node)
    return text, s.rules


def render_plain_struct_as_union(d):
    arms = "".join("\n    " + member(m.name, type_name(m.type), discriminatorValue=i + 5) for i, m in enumerate(d.members))
    return tag("union", arms + "\n", name=d.name), ["%s struct" % d.name]


def number(value, style):
    """A number of an enumerator: decimal, negative or hexadecimal."""
    if style.number % 3 == 1 and value >= 1 << 31:
        return value - (1 << 32)
    if style.number % 3 == 2:
        return "0x%x" % value
    return value


def render(d, style):
    if isinstance(d, Const):
        return tag("constant", name=d.name, value=d.text), []
    if isinstance(d, Typedef):
        if style.number % 2 and d.target.name in PRIMITIVE:
            return tag("typedef", name=d.name, primitiveType=PRIMITIVE[d.target.name]), []
        return tag("typedef", name=d.name, type=type_name(d.target)), []
    if isinstance(d, Enum):
        rows = "".join("\n    " + tag("enum-member", name=n, value=number(v, style)) for n, v in d.members)
        return tag("enum", rows + "\n", name=d.name), []
    if isinstance(d, Union):
        rules = []
        rows = ""
        for n, (disc, t, name) in enumerate(d.arms):
            old = name
            if style.number % 4 == 3:
                old = "was_" + name
                rules.append("%s rename %s %s" % (d.name, old, name))
            rows += "\n    " + member(old, type_name(t), discriminatorValue="0x%X" % disc if style.number % 2 else disc)
        return tag("union", rows + "\n", name=d.name), rules
    if style.number % 5 == 4 and all(m.kind == "plain" for m in d.members):
        return render_plain_struct_as_union(d)
    return render_struct(d, style)


CONSTANTS = [Const("K_%d" % n, str(n)) for n in range(1, 16)]


def document(decls, style, constants=CONSTANTS):
    """(XML, patch) of the declarations; the elements follow each other in dependency order or the other way round."""
    texts, rules = [], []
    for d in list(constants) + list(decls):
        text, more = render(d, style)
        texts.append(text)
        rules += more
    if style.number % 2:
        texts.reverse()
    if style.number % 4 == 1:
        texts = ["<group>\n%s\n</group>" % t for t in texts]
    return "<xml>\n%s\n</xml>\n" % "\n".join(texts), "\n".join(rules) + "\n"
