"""C12: what prophyc accepts can be imported and compiled; what breaks a documented rule is rejected."""
import itertools
import os
import re

from .. import core, cppside, frontend, isarside, pyside

# --- the documented rules, on a model of their own

FIXED, DYNAMIC, UNLIMITED = "fixed", "dynamic", "unlimited"
INTEGERS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"]

LIBRARY = """const K3 = 3;
enum LE { LE_1 = 1, LE_2 = 7 };
typedef u16 LTI;
typedef LTI LTTI;
typedef float LTF;
struct LF { u8 a; u32 b; };
struct LL { u16 a<3>; u8 b[2]; };
struct LO { u64 * a; };
struct LD { u8 a<>; };
struct LDX { u16 n; u64 a<@n>; u8 b; };
struct LDN { LD a; u8 b; };
struct LDA { LD a<>; };
struct LU { u8 n; u32 a<...>; };
struct LUN { u64 a; LU b; };
struct LDU { u8 a<>; u16 b<...>; };
struct LUD { LD a<...>; };
struct LUB { bytes a<...>; };
typedef LF LTS;
typedef LD LTD;
typedef LTD LTTD;
typedef LU LTU;
typedef LUN LTUN;
union LN { 1: u8 a; LE_2: LF b; };
typedef LN LTN;
typedef LE LTE;
"""
KINDS = {t: FIXED for t in INTEGERS + "float double bytes LE LTI LTTI LTF LF LL LO LTS LN LTN LTE".split()}
KINDS.update({t: DYNAMIC for t in "LD LDX LDN LDA LTD LTTD".split()})
KINDS.update({t: UNLIMITED for t in "LU LUN LDU LUD LUB LTU LTUN".split()})
SIZERS = INTEGERS + ["LTI", "LTTI"]
TYPES = ["u8", "u64", "i16", "float", "double", "bytes", "LE", "LTI", "LTF", "LF", "LL", "LO", "LTS", "LN", "LTN", "LTE", "LD", "LDX", "LDN", "LDA",
         "LTD", "LTTD", "LU", "LUN", "LDU", "LUD", "LUB", "LTU", "LTUN"]
SHORT = ["u8", "u64", "bytes", "LE", "LF", "LN", "LD", "LTD", "LU", "LTU"]
FORMS = ["", "*", "[2]", "<>", "<2>", "<...>", "<@n>"]


def fits(t, form, last):
    """Whether a field of type t may be declared in this form, at this place."""
    if t == "bytes" and form in ("", "*"):
        return False
    if form == "<...>" and not last:
        return False
    if KINDS[t] == UNLIMITED:
        return form == "" and last
    if KINDS[t] == DYNAMIC:
        return form in ("", "<>", "<...>", "<@n>")
    return True


def field(t, form, name):
    if form == "*":
        return "%s * %s;" % (t, name)
    return "%s %s%s;" % (t, name, form)


class Point(object):
    """A schema text on top of the library. legal: None when the documents leave it open."""

    def __init__(self, name, text, legal, cpp_full=True, head=True):
        self.name, self.text, self.legal, self.cpp_full, self.head = name, text, legal, cpp_full, head


def struct_points(thorough):
    """Fields of every type in every form, alone and next to each other; a sizer n stands in front when asked for."""
    def make(name, fields, cpp_full=None):
        legal = all(fits(t, f, i == len(fields) - 1) for i, (t, f) in enumerate(fields))
        sized = sum(f == "<@n>" for _, f in fields)
        body = ("u16 n; " if sized else "") + " ".join(field(t, f, "f%d" % i) for i, (t, f) in enumerate(fields))
        return Point("struct/" + name, "struct @ { %s };" % body, legal, cpp_full=sized < 2)

    members = list(itertools.product(TYPES, FORMS))
    for m in members:
        yield make("%s%s" % m, [m])
        yield make("%s%s u8" % m, [m, ("u8", "")])
        yield make("u8 %s%s" % m, [("u8", ""), m])
        yield make("u64<> %s%s" % m, [("u64", "<>"), m])
        yield make("%s%s u8<...>" % m, [m, ("u8", "<...>")])
    short = list(itertools.product(SHORT, FORMS))
    for a, b in itertools.product(short if thorough else short[::2], short):
        yield make("%s%s %s%s" % (a + b), [a, b])
    if thorough:
        tiny = list(itertools.product(["u8", "LE", "LD", "LU"], FORMS))
        for a, b, c in itertools.product(tiny, repeat=3):
            yield make("%s%s %s%s %s%s" % (a + b + c), [a, b, c])


def nested_points(thorough):
    """Kinds travel through structs and typedefs: a field put in a struct, aliased 0..2 times, used in every form."""
    inner = [("u8", ""), ("u8", "<>"), ("u8", "<...>"), ("u8", "<2>"), ("u8", "[2]"), ("u64", "*"), ("LD", ""), ("LD", "<>"), ("LD", "<...>"),
             ("LU", ""), ("bytes", "<>"), ("bytes", "<...>"), ("LN", "[2]"), ("u32", "<@n>"), ("LTD", "<@n>")]
    for (t, f), aliases, wraps, form, last in itertools.product(inner, (0, 1, 2), (0, 1, 2), FORMS, (True, False)):
        if wraps == 2 and aliases == 1 and not thorough:
            continue
        text = "struct @a { %s%s };\n" % ("u8 n; " if f == "<@n>" else "u16 z; ", field(t, f, "x"))
        kind = UNLIMITED if f == "<...>" or KINDS[t] == UNLIMITED else DYNAMIC if f in ("<>", "<@n>") or KINDS[t] == DYNAMIC else FIXED
        name = "@a"
        for i in range(wraps):
            text += "struct @w%d { u8 y; %s x; };\n" % (i, name)
            name = "@w%d" % i
        for i in range(aliases):
            text += "typedef %s @t%d;\n" % (name, i)
            name = "@t%d" % i
        KINDS["*inner"] = kind
        legal = fits("*inner", form, last)
        tail = "" if last else " u8 z;"
        text += "struct @ { %s%s%s };" % ("u16 n; " if form == "<@n>" else "", field(name, form, "f"), tail)
        yield Point("nested/%s%s a%d w%d %s %s" % (t, f, aliases, wraps, form, "last" if last else "not last"), text, legal)
        if form == "":
            yield Point("nested/arm %s%s a%d w%d %s" % (t, f, aliases, wraps, last),
                        text[:text.index("struct @ {")] + "union @ { 1: u8 a; 2: %s b; };" % name, kind == FIXED)


def sizer_points(thorough):
    arrays = ["u8", "u64", "bytes", "LF", "LD", "LE"]
    for t, f in itertools.product(sorted(KINDS), FORMS[:6]):
        if t == "*inner":
            continue
        for array in arrays if thorough or t in ("u8", "LTI", "LE", "LF") else arrays[:1]:
            fine = t in SIZERS and f == ""
            decl = field(t, f, "n")
            yield Point("sizer/%s%s of %s" % (t, f, array), "struct @ { %s %s a<@n>; };" % (decl, array), fine)
            yield Point("sizer/%s%s apart from %s" % (t, f, array), "struct @ { %s u8 b; LD c; u64 d; %s a<@n>; u8 e; };" % (decl, array), fine)
            yield Point("sizer/%s%s after %s" % (t, f, array), "struct @ { %s a<@n>; %s };" % (array, decl), False)
    for array in arrays:
        yield Point("sizer/none %s" % array, "struct @ { u8 m; %s a<@n>; };" % array, False)
        yield Point("sizer/alone %s" % array, "struct @ { %s a<@n>; };" % array, False)
        yield Point("sizer/itself %s" % array, "struct @ { %s a<@a>; };" % array, False)
        yield Point("sizer/elsewhere %s" % array, "struct @x { u8 n; };\nstruct @ { @x x; %s a<@n>; };" % array, False)
        yield Point("sizer/constant %s" % array, "struct @ { u8 m; %s a<@K3>; };" % array, False)
        yield Point("sizer/type %s" % array, "struct @ { LTI m; %s a<@LTI>; };" % array, False)
        yield Point("sizer/implicit %s" % array, "struct @ { u8 x<>; %s a<@num_of_x>; };" % array, None, cpp_full=False)
        yield Point("sizer/implicit limit %s" % array, "struct @ { u8 x<3>; %s a<@num_of_x>; };" % array, None, cpp_full=False)
        yield Point("sizer/implicit own %s" % array, "struct @ { %s a<@num_of_a>; };" % array, False)
        yield Point("sizer/shared %s" % array, "struct @ { u8 n; %s a<@n>; u16 b<@n>; };" % array, True, cpp_full=False)
        yield Point("sizer/two %s" % array, "struct @ { u8 n; u16 m; %s a<@n>; u16 b<@m>; };" % array, True)
        yield Point("sizer/crossed %s" % array, "struct @ { u8 n; u16 m; %s a<@m>; u16 b<@n>; };" % array, True)


def name_points(thorough):
    members = ["u8 X;", "u64 * X;", "u8 X[2];", "u8 X<>;", "u8 X<2>;", "LD X;", "bytes X<>;", "LF X;"]
    tails = ["u8 X<...>;", "LU X;", "bytes X<...>;"]
    for a, b in itertools.product(members, members + tails):
        for gap in ("", "u8 gap;", "u8 gap<>;"):
            yield Point("names/%s %s %s" % (a, gap, b), "struct @ { %s %s %s };" % (a.replace("X", "x"), gap, b.replace("X", "x")), False)
        yield Point("names/%s %s differ" % (a, b), "struct @ { %s %s };" % (a.replace("X", "x"), b.replace("X", "y")), True)
    for m in members + tails:
        for form in ("<>", "<2>"):
            first = "struct @ { u8 x%s; %s };" % (form, m.replace("X", "num_of_x"))
            yield Point("names/counter %s %s" % (form, m), first, False)
            if m in members:
                yield Point("names/counter before %s %s" % (form, m), "struct @ { %s u8 x%s; };" % (m.replace("X", "num_of_x"), form), False)
    arms = ["u8 X;", "LF X;", "LE X;", "LN X;", "double X;"]
    for a, b in itertools.product(arms, repeat=2):
        yield Point("names/arms %s %s" % (a, b), "union @ { 1: %s 2: %s };" % (a.replace("X", "x"), b.replace("X", "x")), False)
        yield Point("names/arms apart %s %s" % (a, b), "union @ { 1: %s 3: u8 z; 2: %s };" % (a.replace("X", "x"), b.replace("X", "x")), False)
        yield Point("names/arms differ %s %s" % (a, b), "union @ { 1: %s 2: %s };" % (a.replace("X", "x"), b.replace("X", "y")), True)
    decls = ["const @n = 1;", "enum @n { @e = 1 };", "enum @q { @n = 1 };", "enum @q { @r = 1, @n = 2 };", "typedef u8 @n;", "typedef LF @n;",
             "struct @n { u8 a; };", "union @n { 1: u8 a; };"]
    for a, b in itertools.product(decls, repeat=2):
        b = b.replace("@q", "@q2").replace("@e", "@e2").replace("@r", "@r2")
        yield Point("names/%s %s" % (a, b), a + "\n" + b, False)
        yield Point("names/%s u8 %s" % (a, b), a + "\nstruct @x { u8 a; };\n" + b, False)
        yield Point("names/%s %s differ" % (a, b), a + "\n" + b.replace("@n", "@m"), True)
    for lib in ("K3", "LE", "LE_1", "LTI", "LF", "LN", "LD"):
        for d in decls:
            yield Point("names/included %s %s" % (lib, d), d.replace("@n", lib), False)
    yield Point("names/enum and its enumerator", "enum @n { @n = 1 };", False)
    yield Point("names/enumerators", "enum @n { @a = 1, @a = 2 };", False)
    yield Point("names/enumerators apart", "enum @n { @a = 1, @b = 2, @a = 3 };", False)
    yield Point("names/member like its type", "struct @ { LF LF; };", None)
    yield Point("names/member like a type", "struct @ { u8 LF; };", None)
    yield Point("names/member like its struct", "struct @ { u8 @; };", None)
    yield Point("names/member like a constant", "struct @ { u8 K3; u8 x[K3]; };", None)
    yield Point("names/arm like its type", "union @ { 1: LF LF; };", None)
    yield Point("names/arm like its union", "union @ { 1: u8 @; };", None)
    yield Point("names/member like a later type", "struct @ { u8 LN; LN x; };", None)


# spelled differently, equal in value; None stands for values that cannot be told apart by the documents
WORDS = [("0", True), ("1", True), ("2147483647", True), ("2147483648", True), ("4294967295", True), ("4294967296", False), ("0xffffffff", True),
         ("0x100000000", False), ("-1", False), ("-2147483648", False), ("-2147483649", False), ("1 << 31", True), ("1 << 32", False),
         ("(1 << 32) - 1", True), ("0 - 1", False), ("K3 - 4", False), ("K3", True), ("18446744073709551615", False), ("18446744073709551616", False),
         ("LE_2", True), ("LE_2 - 8", False), ("-0", True), ("037777777777", True), ("040000000000", False)]
SIZES = [("1", True), ("2", True), ("0", False), ("-1", False), ("0x10", True), ("010", True), ("K3", True), ("K3 - 2", True), ("K3 - 3", False),
         ("K3 - 4", False), ("1 - 1", False), ("K3 / 4", False), ("K3 / 2", True), ("1 >> 1", False), ("0x0", False), ("00", False), ("-K3", False),
         ("0 * 5", False), ("65536", True), ("-(-2)", True), ("LE_1", True), ("LE_1 - 1", False)]
SAME = [("1", "1"), ("1", "0x1"), ("K3", "3"), ("LE_2", "7"), ("1 + 1", "2"), ("010", "8"), ("LE_1", "K3 - 2"), ("0", "00"), ("4294967295", "0xffffffff")]


def number_points(thorough):
    for w, fine in WORDS:
        yield Point("number/enumerator %s" % w, "enum @n { @a = %s };" % w, fine)
        yield Point("number/second enumerator %s" % w, "enum @n { @a = 5, @b = %s };" % w, fine)
        yield Point("number/discriminator %s" % w, "union @ { %s: u8 a; };" % w, fine)
        yield Point("number/last discriminator %s" % w, "union @ { 5: u8 a; 6: LF b; %s: u64 c; };" % w, fine)
        yield Point("number/enumerator through a constant %s" % w, "const @k = %s;\nenum @n { @a = @k };" % w, fine)
        yield Point("number/discriminator through a constant %s" % w, "const @k = %s;\nunion @ { @k: u8 a; };" % w, fine)
    for s, fine in SIZES:
        for t in ("u8", "bytes", "LF", "LE", "LTI"):
            yield Point("number/array %s %s" % (t, s), "struct @ { %s a[%s]; };" % (t, s), fine)
            yield Point("number/limit %s %s" % (t, s), "struct @ { u8 b; %s a<%s>; };" % (t, s), fine)
            yield Point("number/constant array %s %s" % (t, s), "const @k = %s;\nstruct @ { %s a[@k]; };" % (s, t), fine)
    for a, b in SAME:
        for x, y in ((a, b), (b, a)):
            yield Point("number/same %s %s" % (x, y), "union @ { %s: u8 a; %s: u16 b; };" % (x, y), False)
            yield Point("number/same apart %s %s" % (x, y), "union @ { %s: u8 a; 99: u8 z; %s: u16 b; };" % (x, y), False)
            yield Point("number/same enumerators %s %s" % (x, y), "enum @n { @a = %s, @b = %s };\nstruct @ { @n a; };" % (x, y), None)
    yield Point("number/huge constant", "const @k = 18446744073709551615;", None)
    yield Point("number/huger constant", "const @k = 18446744073709551616;", None)
    yield Point("number/low constant", "const @k = -9223372036854775808;", None)
    yield Point("number/lower constant", "const @k = -9223372036854775809;", None)
    for n in ("2147483648", "4294967295", "4294967296", "1 << 40", "1 << 62", "1 << 63", "1 << 64", "1 << 100"):
        for t in ("u8", "u64", "LF"):
            yield Point("number/big array %s %s" % (t, n), "struct @ { %s a[%s]; };" % (t, n), None)
            yield Point("number/big limit %s %s" % (t, n), "struct @ { %s a<%s>; };" % (t, n), None)


def arm_points(thorough):
    for t in TYPES:
        fine = KINDS[t] == FIXED and t != "bytes"
        yield Point("arm/" + t, "union @ { 1: %s a; };" % t, fine)
        yield Point("arm/second " + t, "union @ { 1: u8 b; 2: %s a; };" % t, fine)
        yield Point("arm/middle " + t, "union @ { 1: u8 b; 2: %s a; 3: u64 c; };" % t, fine)
        for form in FORMS[1:]:
            yield Point("arm/%s%s" % (t, form), "union @ { 1: %s };" % field(t, form, "a"), False)
    for t, u in itertools.product(TYPES, repeat=2):
        yield Point("arm/%s %s" % (t, u), "union @ { 0: %s a; 4294967295: %s b; };" % (t, u), KINDS[t] == KINDS[u] == FIXED and "bytes" not in (t, u))
    for body, legal in (("struct @ { };", False), ("union @ { };", False), ("enum @n { };", False), ("struct @ { u8 a };", False),
                        ("struct @ { @ a; };", False), ("union @ { 1: @ a; };", False), ("struct @ { @ a<>; };", False), ("typedef @n @n;", False),
                        ("typedef @n @m;", False), ("struct @ { @n a; };", False), ("struct @ { u8 a[@n]; };", False), ("const @k = @k;", False),
                        ("struct @ { K3 a; };", False), ("typedef K3 @n;", False), ("struct @ { LE_1 a; };", False), ("union @ { LF: u8 a; };", False),
                        ("struct @ { u8 a[LF]; };", False), ("enum @n { @a = LE };", False), ("typedef bytes @n;", False),
                        ("struct @ { u8 a[2][2]; };", False), ("struct @ { u8 * a[2]; };", False), ("struct @ { u8 a<2>[2]; };", False),
                        ("struct @ { bytes * a; };", False), ("union @ { u8 a; };", False), ("enum @n { @a };", False), ("struct @ { byte a; };", False)):
        yield Point("arm/" + body, body, legal)


# names that mean something to the languages of the outputs or to the generated code
CPP_WORDS = ("alignas alignof and asm auto bool break case catch char class compl const_cast continue decltype default delete do double dynamic_cast else"
             " explicit export extern false for friend goto if inline int long mutable namespace new noexcept not nullptr operator or private protected"
             " public register return short signed sizeof static switch template this throw true try typeid typename unsigned using virtual void"
             " volatile while xor").split()
PY_WORDS = "and as assert async await break class continue def del elif else except finally for from global if import in is lambda nonlocal not or pass raise return try while with yield None True False".split()
OTHER_WORDS = ("prophy array bytes_ encode decode get_byte_size print swap discriminator has_x encoded_byte_size cast native detail message std uint8_t"
               " size_t optional value T E in pos end endianness data self _fields str int object sys print_to x_ part2 print_byte_size generated test"
               " math").split()
PLACES = [("field", "struct @ { u8 X; };"), ("array", "struct @ { u8 X<>; u8 y; };"), ("limited", "struct @ { u8 X<2>; };"), ("optional", "struct @ { u8 * X; };"),
          ("fixed", "struct @ { u8 X[2]; };"), ("composite", "struct @ { LF X; };"), ("arm", "union @ { 1: u8 X; 2: LF b; };"), ("sizer", "struct @ { u8 X; u8 y<@X>; };"),
          ("struct", "struct X { u8 a; };\nstruct @ { X x; };"), ("union", "union X { 1: u8 a; };"), ("enum", "enum X { @e = 1 };\nstruct @ { X x; };"),
          ("enumerator", "enum @n { X = 1 };\nstruct @ { @n x; };"), ("typedef", "typedef u8 X;\nstruct @ { X x; };"), ("constant", "const X = 1;\nstruct @ { u8 x[X]; };")]


def word_points(thorough):
    for w in sorted(set(CPP_WORDS + PY_WORDS + OTHER_WORDS)):
        for place, text in PLACES:
            # alone in its file, so that a word does not get in the way of another one
            yield Point("word/%s %s" % (place, w), re.sub(r"\bX\b", w, text), None, head="LF X" in text or "LF b" in text)


# --- the same rules for schemas written as isar, completed by patch rules where isar has no words of its own

ISAR_LIBRARY = """<constant name="K3" value="3"/>
<enum name="LE"><enum-member name="LE_1" value="1"/><enum-member name="LE_2" value="7"/></enum>
<typedef name="LTI" type="u16"/><typedef name="LTTI" type="LTI"/><typedef name="LTF" type="r32"/>
<struct name="LF"><member name="a" type="u8"/><member name="b" type="u32"/></struct>
<struct name="LL"><member name="a" type="u16"><dimension size="3" isVariableSize="true"/></member><member name="b" type="u8"><dimension size="2"/></member></struct>
<struct name="LO"><member name="a" type="u64" optional="true"/></struct>
<struct name="LD"><member name="a" type="u8"><dimension isVariableSize="true"/></member></struct>
<struct name="LDX"><member name="n" type="u16"/><member name="a" type="u64"><dimension variableSizeFieldName="@n"/></member><member name="b" type="u8"/></struct>
<struct name="LDN"><member name="a" type="LD"/><member name="b" type="u8"/></struct>
<struct name="LDA"><member name="a" type="LD"><dimension isVariableSize="true"/></member></struct>
<struct name="LU"><member name="n" type="u8"/><member name="a" type="u32"/></struct>
<struct name="LUN"><member name="a" type="u64"/><member name="b" type="LU"/></struct>
<struct name="LDU"><member name="a" type="u8"><dimension isVariableSize="true"/></member><member name="b" type="u16"/></struct>
<struct name="LUD"><member name="a" type="LD"/></struct>
<struct name="LUB"><member name="a" type="byte"/></struct>
<typedef name="LTS" type="LF"/><typedef name="LTD" type="LD"/><typedef name="LTTD" type="LTD"/><typedef name="LTU" type="LU"/><typedef name="LTUN" type="LUN"/>
<union name="LN"><member type="u8" name="a" discriminatorValue="1"/><member type="LF" name="b" discriminatorValue="LE_2"/></union>
<typedef name="LTN" type="LN"/><typedef name="LTE" type="LE"/>
"""
ISAR_RULES = "LU greedy a\nLDU greedy b\nLUD greedy a\nLUB greedy a\n"


class IsarPoint(Point):
    """An isar text on top of the library, ~ stands for the names of its own; rules complete it."""

    def __init__(self, name, text, legal, rules="", cpp_full=True, head=True):
        Point.__init__(self, "isar/" + name, text, legal, cpp_full, head)
        self.rules = rules


def isar_member(t, form, name, **attributes):
    """The member and the patch rule it needs."""
    t = {"float": "r32", "double": "r64", "bytes": "byte"}.get(t, t)
    dimension = {"": None, "*": None, "[2]": {"size": 2}, "<>": {"isVariableSize": "true"}, "<2>": {"size": 2, "isVariableSize": "true"},
                 "<...>": None, "<@n>": {"variableSizeFieldName": "@n"}}[form]
    if form == "*":
        attributes["optional"] = "true"
    return isarside.member(name, t, dimension, **attributes), "~ greedy %s\n" % name if form == "<...>" else ""


def isar_struct(name, fields, legal=None, cpp_full=True):
    """fields: (type, form, name)"""
    parts = [isar_member(*f) for f in fields]
    return IsarPoint(name, isarside.tag("struct", "".join(x for x, _ in parts), name="~"), legal, "".join(r for _, r in parts), cpp_full)


def isar_struct_points(thorough):
    def make(name, fields):
        legal = all(fits(t, f, i == len(fields) - 1) for i, (t, f) in enumerate(fields))
        sized = sum(f == "<@n>" for _, f in fields)
        named = [(t, f, "f%d" % i) for i, (t, f) in enumerate(fields)]
        return isar_struct("struct/" + name, ([("u16", "", "n")] if sized else []) + named, legal, sized < 2)

    # isar has bytes without an array, and patch rules can make arrays of them
    members = [m for m in itertools.product(TYPES, FORMS) if m not in (("bytes", ""), ("bytes", "*"))]
    for m in members:
        yield make("%s%s" % m, [m])
        yield make("%s%s u8" % m, [m, ("u8", "")])
        yield make("u8 %s%s" % m, [("u8", ""), m])
        yield make("u64<> %s%s" % m, [("u64", "<>"), m])
        yield make("%s%s u8<...>" % m, [m, ("u8", "<...>")])
    for form in ("", "*"):
        for fields in ([], [("u8", "", "z")], [("LD", "", "z")]):
            yield isar_struct("struct/byte%s %d" % (form, len(fields)), [("bytes", form, "x")] + fields)
            yield isar_struct("struct/%d byte%s" % (len(fields), form), fields + [("bytes", form, "x")])
    for k, text in enumerate(("", isarside.member("a", "~t"), isarside.member("a", "~t", optional="true"), isarside.member("a", "~t", {"size": 2}),
                              isarside.member("a", "~t", {"isVariableSize": "true"}), isarside.member("a", "~t", {"size": 2, "isVariableSize": "true"}))):
        for wrapped in ("typedef", "union", "sizer", "second typedef") if not k else ("typedef",):
            head = '<typedef name="~t" type="byte"/>'
            body = {"union": '<union name="~"><member type="byte" name="a" discriminatorValue="1"/><member type="~t" name="b" discriminatorValue="2"/></union>',
                    "sizer": '<struct name="~"><member name="n" type="byte"/><member name="x" type="u8"><dimension variableSizeFieldName="@n"/></member></struct>',
                    "second typedef": '<typedef name="~u" type="~t"/><struct name="~"><member name="n" type="~u"/></struct>'}
            yield IsarPoint("struct/aliased byte %s %d" % (wrapped, k), head + body.get(wrapped, isarside.tag("struct", text, name="~") if text else ""), None)
    short = [m for m in members if m[0] in SHORT]
    for a, b in itertools.product(short if thorough else short[::5], short):
        yield make("%s%s %s%s" % (a + b), [a, b])


def isar_sizer_points(thorough):
    arrays = ["u8", "bytes", "LF", "LD"]
    for t, f in itertools.product(sorted(KINDS), ("", "*", "[2]", "<>", "<2>")):
        if t in ("*inner", "bytes"):
            continue
        for array in arrays if thorough or t in ("u8", "LTI", "LE", "LF") else arrays[:1]:
            fine = t in SIZERS and f == ""
            n, a = (t, f, "n"), (array, "<@n>", "a")
            yield isar_struct("sizer/%s%s of %s" % (t, f, array), [n, a], fine)
            yield isar_struct("sizer/%s%s apart from %s" % (t, f, array), [n, ("u8", "", "b"), ("LD", "", "c"), a, ("u8", "", "e")], fine)
            yield isar_struct("sizer/%s%s after %s" % (t, f, array), [a, n], False)
    for array in arrays:
        a = (array, "<@n>", "a")
        yield isar_struct("sizer/none %s" % array, [("u8", "", "m"), a], False)
        yield isar_struct("sizer/alone %s" % array, [a], False)
        yield isar_struct("sizer/own %s" % array, [(array, "<@n>", "n")], False)
        yield isar_struct("sizer/shared %s" % array, [("u8", "", "n"), a, ("u16", "<@n>", "b")], True, False)
        for t in ["float", "LE", "LTF", "LF", "LD", "LO", "LTE"] + SIZERS:
            dimension = {"isVariableSize": "true", "variableSizeFieldType": {"float": "r32"}.get(t, t), "variableSizeFieldName": "count"}
            x = isarside.member("a", {"bytes": "byte"}.get(array, array), dimension)
            yield IsarPoint("sizer/made of %s for %s" % (t, array), isarside.tag("struct", x, name="~"), t in SIZERS)


def isar_limited_points(thorough):
    """Arrays limited by a patch, whose sizer stands anywhere in front of them, next to all others."""
    kinds = {"u": ("u8", ""), "d": ("u16", "<>"), "f": ("u8", "[2]"), "l": ("u64", "<2>"), "x": ("u8", "<@n>"), "g": ("u8", "<...>"), "n": ("LD", "")}
    for size in (1, 2, 3, 4) if thorough else (1, 2, 3):
        for word in itertools.product("LWudflxgn", repeat=size):
            shared = sum(w in "LWx" for w in word)
            if not set(word) & set("LW") or "g" in word[:-1] or size > 2 and shared > 2:
                continue
            text, rules = isarside.member("n", "u16"), ""
            for i, w in enumerate(word):
                name = "f%d" % i
                if w in "LW":
                    text += isarside.member(name, {"L": "u16", "W": "LF"}[w], {"size": 3})
                    rules += "~ limited %s n\n" % name
                else:
                    x, r = isar_member(*kinds[w] + (name,))
                    text, rules = text + x, rules + r
            yield IsarPoint("limited/" + "".join(word), isarside.tag("struct", text, name="~"), True, rules, cpp_full=shared == 1)


def isar_other_points(thorough):
    forms = [f for f in FORMS if f != "<@n>"]
    for a, b in itertools.product(itertools.product(("u8", "LF", "LD"), forms[:5]), itertools.product(("u8", "LF", "LD", "LU"), forms)):
        if fits(a[0], a[1], False) and fits(b[0], b[1], True):
            yield isar_struct("names/%s%s %s%s" % (a + b), [a + ("x",), b + ("x",)], False)
            yield isar_struct("names/%s%s gap %s%s" % (a + b), [a + ("x",), ("u8", "", "g"), b + ("x",)], False)
    for t, f in (("u8", ""), ("LF", ""), ("u8", "<>"), ("u8", "*")):
        yield isar_struct("names/made sizer %s%s" % (t, f), [("u8", "<>", "x"), (t, f, "x_len")], False)
        yield isar_struct("names/made sizer %s%s before" % (t, f), [(t, f, "x_len"), ("u8", "<2>", "x")], False)
    decls = [lambda n, o: isarside.tag("constant", name=n, value=1), lambda n, o: isarside.tag("typedef", name=n, type="u8"),
             lambda n, o: isarside.tag("enum", '<enum-member name="%s" value="1"/>' % o, name=n), lambda n, o: isarside.tag("struct", isarside.member("a", "u8"), name=n),
             lambda n, o: isarside.tag("enum", '<enum-member name="%s" value="1"/>' % n, name=o),
             lambda n, o: isarside.tag("union", '<member type="u8" name="a" discriminatorValue="1"/>', name=n)]
    for (i, a), (k, b) in itertools.product(enumerate(decls), repeat=2):
        yield IsarPoint("names/definitions %d %d" % (i, k), a("~n", "~o") + b("~n", "~p"), False)
        yield IsarPoint("names/definitions %d %d differ" % (i, k), a("~n", "~o") + b("~m", "~p"), True)
    for lib in ("K3", "LE", "LE_1", "LTI", "LF", "LN", "LD"):
        for k, d in enumerate(decls):
            yield IsarPoint("names/of the library %s %d" % (lib, k), d(lib, "~o"), False)

    def union(name, arms, legal):
        text = "".join(isarside.tag("member", type={"float": "r32", "double": "r64"}.get(t, t), name=n, discriminatorValue=d) for t, n, d in arms)
        return IsarPoint(name, isarside.tag("union", text, name="~"), legal)

    for t in TYPES:
        if t != "bytes":
            yield union("arm/" + t, [(t, "a", "1")], KINDS[t] == FIXED)
            yield union("arm/second " + t, [("u8", "b", "1"), (t, "a", "2"), ("u64", "c", "3")], KINDS[t] == FIXED)
    for a, b in (("1", "1"), ("1", "0x1"), ("K3", "3"), ("LE_2", "7"), ("1+1", "2"), ("LE_1", "K3-2"), ("4294967295", "0xffffffff")):
        for x, y in ((a, b), (b, a)):
            yield union("number/same %s %s" % (x, y), [("u8", "a", x), ("u16", "b", y)], False)
            yield union("number/same apart %s %s" % (x, y), [("u8", "a", x), ("u16", "c", "99"), ("LF", "b", y)], False)
    yield union("names/arms", [("u8", "a", "1"), ("LF", "a", "2")], False)
    yield union("names/arms apart", [("u8", "a", "1"), ("u8", "b", "2"), ("LF", "a", "3")], False)
    for w, fine in (("0", True), ("1", True), ("2147483647", True), ("2147483648", True), ("4294967295", True), ("0xffffffff", True), ("K3", True), ("K3+1", True),
                    ("1&lt;&lt;31", True), ("4294967296", False), ("0x100000000", False), ("18446744073709551616", False), ("1&lt;&lt;32", False), ("-1", None),
                    ("-2147483648", None), ("-2147483649", None), ("K3-4", None)):
        w = w.replace("&lt;", "<")
        yield union("number/discriminator %s" % w, [("u8", "a", w)], fine)
        yield union("number/last discriminator %s" % w, [("u8", "a", "5"), ("LF", "b", "6"), ("u64", "c", w)], fine)
        for before in ("", '<enum-member name="~b" value="5"/>'):
            text = isarside.tag("enum", before + isarside.tag("enum-member", name="~a", value=w), name="~n")
            yield IsarPoint("number/%senumerator %s" % ("second " if before else "", w), text, fine)
    for n, fine in (("1", True), ("2", True), ("K3", True), ("0x10", True), ("K3-2", True), ("65536", True), ("LE_2", True), ("0", False), ("-1", False),
                    ("K3-3", False), ("K3-4", False), ("1-1", False), ("0x0", False), ("-K3", False), ("0*5", False), ("ABSENT", False)):
        for t in ("u8", "byte", "LF", "LE"):
            for dimension in ({"size": n}, {"size": n, "isVariableSize": "true"}, {"size": n, "size2": "1"}, {"size": "1", "size2": n}):
                text = isarside.tag("struct", isarside.member("a", t, dimension), name="~")
                yield IsarPoint("number/%s of %s" % (" ".join("%s=%s" % x for x in sorted(dimension.items())), t), text, fine)
            text = isarside.tag("struct", isarside.member("a", t), name="~")
            yield IsarPoint("number/static %s of %s" % (n, t), text, fine, "~ static a %s\n" % n)


COMMENTS = ["plain", "it's", "'", "''", "'" * 3, "'" * 4, "a%sb" % ("'" * 3), "ends with '", '"', '"""', "\\", "a\\", "\\n", "\\x", "\\u", "\\N{x}", "\\'", "'\\", "*/", "/*", "//", "// \\", "??/",
            "#", "%", "%s", "%(a)s", "{}", "{0}", "{x", "}", "<b>", "&", "tab\there", "two\nlines", "two\r\nlines", "\n", " ", "Za\u017c\u00f3\u0142\u0107", "\u2028", "\U0001f600",
            "long " * 60, "x" * 300, "'" * 3 + "\nimport nothing_of_this_name\n" + "'" * 3, "*/ #error here", "'; broken syntax ="]


def isar_comment_points(thorough):
    """Comments may hold any text and change nothing but comments."""
    escape = lambda c: isarside.quote(c).replace("\n", "&#10;").replace("\r", "&#13;").replace("\t", "&#9;").replace("~", "")
    places = [("constant", '<constant name="~k" value="3" C/>'), ("typedef", '<typedef name="~t" type="u8" C/>'),
              ("enum", '<enum name="~n" C><enum-member name="~a" value="1"/></enum>'), ("enumerator", '<enum name="~n"><enum-member name="~a" value="1" C/></enum>'),
              ("struct", '<struct name="~" C><member name="a" type="u8"/></struct>'), ("member", '<struct name="~"><member name="a" type="u8" C/></struct>'),
              ("array", '<struct name="~"><member name="a" type="LF" C><dimension isVariableSize="true"/></member></struct>'),
              ("optional array", '<struct name="~"><member name="a" type="u8" optional="true" C><dimension size="2"/></member></struct>'),
              ("union", '<union name="~" C><member type="u8" name="a" discriminatorValue="1"/></union>'),
              ("arm", '<union name="~"><member type="u8" name="a" discriminatorValue="1" C/></union>'),
              ("message", '<message name="~" C><member name="a" type="u8" C/></message>')]
    for (place, text), c in itertools.product(places, COMMENTS):
        yield IsarPoint("comment/%s %r" % (place, c[:40]), text.replace(" C", ' comment="%s"' % escape(c)), True)


# names which the runtime takes for the one that is missing
LENIENT_FIELDS = ["n", "ns", "numOfA", "numOfB", "q"]
LENIENT_BOUNDS = ["n", "ns", "nss", "numOfA", "numOfC", "q"]


def lenient_points():
    fields = [()] + [(a,) for a in LENIENT_FIELDS] + list(itertools.permutations(LENIENT_FIELDS, 2))
    bounds = [(b,) for b in LENIENT_BOUNDS] + list(itertools.product(LENIENT_BOUNDS, repeat=2))
    for f, b in itertools.product(fields, bounds):
        text = "".join(isarside.member(x, "u8") for x in f)
        text += "".join(isarside.member("a%d" % i, "u8", {"variableSizeFieldName": "@" + x}) for i, x in enumerate(b))
        p = IsarPoint("lenient/%s; %s" % (" ".join(f), " ".join(b)), isarside.tag("struct", text, name="~"), None, cpp_full=len(b) == 1)
        p.fields, p.bounds = f, b
        yield p


def filled(cls, fields, bounds):
    """What the class makes of its arrays, or the exception."""
    message = cls()
    for i, _ in enumerate(bounds):
        getattr(message, "a%d" % i)[:] = [0xa0 + i] * 3
    for f in fields:
        try:
            setattr(message, f, 7)
        except Exception:
            pass   # a sizer
    return message.encode("<")


def lenient_group(points):
    """A missing sizer is replaced by one of a similar name, or refused: by prophyc and by the runtime alike."""
    res = core.Result()
    import prophy
    for p in points:
        res.states += 1
        res.traces += 1
        res.transitions += 2
        arrays = ["('a%d', prophy.array(prophy.u8, bound='%s'))" % (i, b) for i, b in enumerate(p.bounds)]
        scope = {"prophy": prophy}
        try:
            with frontend.quiet():
                exec(RUNTIME["struct"] % ("[%s]" % ", ".join(["('%s', prophy.u8)" % f for f in p.fields] + arrays)), scope)
            wanted = "accepted", filled(scope["T"], p.fields, p.bounds)
        except prophy.ProphyError:
            wanted = "refused", None
        with core.Scratch() as d:
            outcome = accept([p], ("python",), d)
            if outcome.kind == "ok":
                module = pyside.load_module(os.path.join(d, "schema.py"))
                got = "accepted", filled(module.P0, p.fields, p.bounds)
                struct = [n for n in outcome.nodes["schema"] if n.name == "P0"][0]
                members = [m.name for m in struct.members]
                for m in struct.members:
                    if m.bound and m.bound not in members[:members.index(m.name)]:
                        got = "accepted with sizer '%s' which does not exist" % m.bound, None
            else:
                got = "refused" if outcome.kind == "error" else str(outcome), None
        if got != wanted:
            res.violation("isar:lenient", "the class of the runtime is %s %s, the schema is %s %s\n%s" % (wanted + got + (p.text,)), case=p.name)
        else:
            res.outcomes["sizer of a similar name: " + got[0]] += 1
    return res


# --- deciding a point

def rename(point, index):
    """Every point of a file gets names of its own."""
    if isinstance(point, IsarPoint):
        return point.text.replace("~", "P%d" % index) + "\n"
    return re.sub(r"(?<!<)@(\w*)", lambda m: "P%d%s" % (index, m.group(1)), point.text) + "\n"


def schema(points, head=True):
    if isinstance(points[0], IsarPoint):
        return "<xml>\n%s</xml>\n" % (ISAR_LIBRARY + "".join(rename(p, i) for i, p in enumerate(points)))
    return (LIBRARY if head else "") + "".join(rename(p, i) for i, p in enumerate(points))


def outs(directory, outputs):
    args = []
    for o in outputs:
        args += ["--%s_out" % o, directory]
    return args


def accept(points, outputs, directory, head=True):
    isar = isinstance(points[0], IsarPoint)
    path = os.path.join(directory, "schema.xml" if isar else "schema.prophy")
    with open(path, "w", encoding="utf-8") as f:
        f.write(schema(points, head))
    args = outs(directory, outputs)
    if isar:
        with open(os.path.join(directory, "patch"), "w") as f:
            f.write(ISAR_RULES + "".join(p.rules.replace("~", "P%d" % i) for i, p in enumerate(points)))
        args += ["--isar", "--patch", os.path.join(directory, "patch")]
    return frontend.call(args + [path])


def imports(directory):
    try:
        pyside.load_module(os.path.join(directory, "schema.py"))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def compiles(directory, kind):
    name = {"cpp_full": "schema.ppf.cpp", "cpp": "schema.pp.cpp"}[kind]
    cppside.compiler(["-std=c++11", "-O0", "-c", name, "-o", "schema.%s.o" % kind, "-I", cppside.INCLUDE], directory)


def usable(points, outputs, head=True):
    """None, or what went wrong with a group of points that have to work together."""
    with core.Scratch() as d:
        outcome = accept(points, outputs, d, head)
        if outcome.kind != "ok":
            return "refused", outcome
        if "python" in outputs:
            why = imports(d)
            if why:
                return "the Python module does not import: %s" % why, outcome
        for kind in ("cpp_full", "cpp"):
            if kind in outputs:
                try:
                    compiles(d, kind)
                except cppside.BuildError as e:
                    return "the generated C++ (%s) does not compile: %s" % (kind, str(e)[:600]), outcome


def outputs_of(point):
    return ("python", "cpp", "cpp_full") if point.cpp_full else ("python", "cpp")


def culprits(points, outputs, most=6):
    """Minimal groups out of these points that are not usable, by halving. Yields (group, what, outcome)."""
    why = usable(points, outputs, points[0].head)
    if why is None:
        return []
    if len(points) > 1:
        found = culprits(points[:len(points) // 2], outputs, most)
        if len(found) < most:
            found += culprits(points[len(points) // 2:], outputs, most)
        if found:
            return found
    return [(points, why[0], why[1])]


def texts(points):
    return "".join(rename(p, i) + getattr(p, "rules", "") for i, p in enumerate(points))


def legal_group(points):
    """All points of the group have to be accepted and realised."""
    res = core.Result()
    res.states += len(points)
    res.traces += len(points)
    res.transitions += len(points) * len(outputs_of(points[0]))
    undo = frontend.pool_parsers()
    bad = culprits(points, outputs_of(points[0]))
    undo()
    res.outcomes["accepted and realised"] += len(points) - len(bad)
    for group, what, outcome in bad:
        p = group[0]
        if what == "refused":
            what = "a legal schema is refused: %s" % outcome.message
        key = "%s:%s" % (p.name.split("/")[0], "refused" if "refused" in what else re.sub(r"[:(].*", "", what, flags=re.S))
        res.violation(key, "%s\n%s" % (what, texts(group)), case=p.name, schema=schema(group, p.head))
    return res


def illegal_group(points):
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points:
        res.states += 1
        res.transitions += 1
        res.traces += 1
        with core.Scratch() as d:
            outcome = accept([p], ("python",), d)
            if outcome.kind == "error" and (outcome.located or isinstance(p, IsarPoint)):
                res.outcomes["rejected: " + re.sub(r"'.*?'|\d+", "*", outcome.message.split("error: ")[-1])[:60]] += 1
                continue
            if outcome.kind == "ok":
                why = imports(d)
                tail = "accepted; the Python module %s" % ("does not even import: " + why if why else "imports")
            else:
                tail = "answered by " + str(outcome)
        res.violation("%s:%s" % (p.name.split("/")[0], " ".join(p.name.split("/", 1)[1].split()[:2])[:40]),
                      "a rule-breaking schema is %s\n%s" % (tail, texts([p])), case=p.name, schema=schema([p]))
    undo()
    return res


def open_group(points):
    """The documents do not say: an output is refused with a diagnostic, or what is written works."""
    res = core.Result()
    undo = frontend.pool_parsers()
    res.states += len(points)
    res.traces += len(points)
    for output in ("python", "cpp_full", "cpp"):
        accepted = []
        for p in points:
            if output == "cpp_full" and not p.cpp_full:
                continue
            res.transitions += 1
            with core.Scratch() as d:
                outcome = accept([p], (output,), d, p.head)
            if outcome.kind == "ok":
                accepted.append(p)
            else:
                res.outcomes["left open, refused by " + output] += 1
                if outcome.kind != "error":
                    res.violation("open:" + outcome.kind, "%s\n%s" % (outcome, texts([p])), case=p.name)
        bad = culprits(accepted, (output,), len(accepted)) if accepted else []
        res.outcomes["left open, realised by " + output] += len(accepted) - len(bad)
        for group, what, outcome in bad:
            p = group[0]
            name = "word/" + p.name.split()[-1] if p.name.startswith("word/") else re.sub(r"\s*[-\dx(<>)]+$", "", p.name)
            res.violation("%s: %s" % (name, output), "%s\n%s" % (what, texts(group)),
                          case=p.name, schema=schema(group, p.head))
    undo()
    return res


def dispatch(arg):
    kind, points = arg
    return {"legal": legal_group, "illegal": illegal_group, "open": open_group, "runtime": runtime_group, "lenient": lenient_group}[kind](points)


# --- the Python runtime by itself: it has to agree with the rules without the compiler in front of it

class Built(object):
    """A class written by hand: kind is "struct", "union" or "enum", text its descriptor."""

    def __init__(self, name, kind, text, legal):
        self.name, self.kind, self.text, self.legal = "runtime/" + name, kind, text, legal


def runtime_type(t, form, name):
    base = {"float": "prophy.r32", "double": "prophy.r64"}.get(t, "prophy." + t if t in INTEGERS else "lib." + t)
    if form == "":
        return base
    if form == "*":
        return "prophy.optional(%s)" % ("prophy.bytes(size=2)" if t == "bytes" else base)
    sizes = {"[2]": "size=2", "<>": "bound='num_of_%s'" % name, "<2>": "bound='num_of_%s', size=2" % name, "<...>": "", "<@n>": "bound='n'"}[form]
    if t == "bytes":
        return "prophy.bytes(%s)" % sizes
    return "prophy.array(%s%s)" % (base, sizes and ", " + sizes)


def runtime_fields(fields):
    out = []
    for t, form, name in fields:
        if form in ("<>", "<2>"):
            out.append("('num_of_%s', prophy.u32)" % name)
        out.append("('%s', %s)" % (name, runtime_type(t, form, name)))
    return "[%s]" % ", ".join(out)


def runtime_points(thorough):
    plain = [(t, f) for t in TYPES for f in FORMS if (t, f) != ("bytes", "")]
    for m in plain:
        for before, after in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (2, 2)):
            neighbours = [None, ("u8", "", "y"), ("u64", "<>", "z")]
            fields = [neighbours[before]] if before else []
            if m[1] == "<@n>":
                fields.append(("u16", "", "n"))
            fields.append(m + ("x",))
            if after:
                fields.append(neighbours[after][:2] + ("w",))
            yield Built("struct %s%s %d %d" % (m + (before, after)), "struct", runtime_fields(fields), fits(m[0], m[1], not after))
        last = m + ("x",)
        if m[1] != "<@n>":
            # the language has no bytes in unions, the runtime does
            if m != ("bytes", "[2]"):
                yield Built("union %s%s" % m, "union", "[('y', prophy.u8, 1), ('x', %s, 2)]" % runtime_type(*last), m[1] == "" and KINDS[m[0]] == FIXED)
            for outer in ("size=2", "bound='n'", "bound='n', size=2", ""):
                # an array of what already is an array or optional
                legal = m[1] == "" and (KINDS[m[0]] == FIXED or KINDS[m[0]] == DYNAMIC and "size" not in outer)
                text = "[('n', prophy.u8), ('x', prophy.array(%s%s))]" % (runtime_type(*last), outer and ", " + outer)
                yield Built("array(%s) of %s%s" % ((outer,) + m), "struct", text, legal)
    for a, b in itertools.product(plain, repeat=2):
        if "<@n>" in (a[1], b[1]) or not thorough and (a[0] not in SHORT or b[0] not in SHORT):
            continue
        yield Built("pair %s%s %s%s" % (a + b), "struct", runtime_fields([a + ("x",), b + ("y",)]), fits(a[0], a[1], False) and fits(b[0], b[1], True))
    for t in sorted(KINDS):
        if t in ("*inner", "bytes"):
            continue
        for f in ("", "*"):
            if f and KINDS[t] != FIXED:
                continue
            sizer, fine = runtime_type(t, f, "n"), t in SIZERS and not f
            for array in ("prophy.array(prophy.u8, bound='n')", "prophy.bytes(bound='n')", "prophy.array(prophy.u64, bound='n', size=3)", "prophy.array(lib.LD, bound='n')"):
                yield Built("sizer %s%s of %s" % (t, f, array), "struct", "[('n', %s), ('a', %s)]" % (sizer, array), fine and KINDS[t] == FIXED)
                if KINDS[t] == FIXED:
                    yield Built("sizer %s%s apart from %s" % (t, f, array), "struct", "[('n', %s), ('b', prophy.u8), ('a', %s), ('c', prophy.u8)]" % (sizer, array), fine)
                    yield Built("sizer %s%s after %s" % (t, f, array), "struct", "[('a', %s), ('n', %s)]" % (array, sizer), False)
    for array in ("prophy.array(prophy.u8, bound='n')", "prophy.bytes(bound='n')", "prophy.array(lib.LF, bound='n', size=2)"):
        yield Built("sizer as array of %s" % array, "struct", "[('n', prophy.array(prophy.u8, size=2)), ('a', %s)]" % array, False)
        yield Built("no sizer of %s" % array, "struct", "[('m', prophy.u8), ('a', %s)]" % array, False)
        yield Built("only %s" % array, "struct", "[('a', %s)]" % array, False)
        yield Built("arm %s" % array, "union", "[('a', %s, 1)]" % array, False)
    for x in ("prophy.u8", "lib.LF", "lib.LE", "lib.LN", "prophy.optional(prophy.u32)", "prophy.array(prophy.u8, size=2)", "prophy.bytes(size=2)"):
        for y in ("prophy.u8", "lib.LF", "lib.LD", "prophy.array(prophy.u8)"):
            yield Built("same names %s %s" % (x, y), "struct", "[('a', %s), ('a', %s)]" % (x, y), False)
            yield Built("same names apart %s %s" % (x, y), "struct", "[('a', %s), ('b', prophy.u8), ('a', %s)]" % (x, y), False)
    arms = ["prophy.u8", "lib.LF", "lib.LE", "lib.LN", "prophy.r64"]
    for x, y in itertools.product(arms, repeat=2):
        yield Built("arms %s %s" % (x, y), "union", "[('a', %s, 0), ('b', %s, 4294967295)]" % (x, y), True)
        yield Built("same arms %s %s" % (x, y), "union", "[('a', %s, 1), ('a', %s, 2)]" % (x, y), False)
        yield Built("same discriminators %s %s" % (x, y), "union", "[('a', %s, 1), ('b', %s, 1)]" % (x, y), False)
        for d in ("-1", "4294967296", "1 << 40", "-2147483648"):
            yield Built("discriminator %s %s %s" % (d, x, y), "union", "[('a', %s, 1), ('b', %s, %s)]" % (x, y, d), False)
    for v in ("0", "1", "2147483648", "4294967295"):
        yield Built("enumerator %s" % v, "enum", "[('RT_a', 5), ('RT_b', %s)]" % v, True)
    for v in ("-1", "4294967296", "-2147483648", "1 << 40"):
        yield Built("enumerator %s" % v, "enum", "[('RT_a', 5), ('RT_b', %s)]" % v, False)
    yield Built("same enumerators", "enum", "[('RT_a', 5), ('RT_a', 6)]", False)
    for n in ("-1", "-5"):
        for text in ("prophy.array(prophy.u8, size=%s)", "prophy.bytes(size=%s)", "prophy.array(lib.LF, size=%s)"):
            yield Built("size %s of %s" % (n, text), "struct", "[('a', %s)]" % (text % n), False)
            yield Built("limit %s of %s" % (n, text), "struct", "[('n', prophy.u8), ('a', %s)]" % (text % (n + ", bound='n'")), False)


RUNTIME = {"struct": "class T(prophy.with_metaclass(prophy.struct_generator, prophy.struct)):\n    _descriptor = %s\n",
           "union": "class T(prophy.with_metaclass(prophy.union_generator, prophy.union)):\n    _descriptor = %s\n",
           "enum": "class T(prophy.with_metaclass(prophy.enum_generator, prophy.enum)):\n    _enumerators = %s\n"}


def runtime_group(points):
    """The Python classes decide by themselves: a legal descriptor works, an illegal one raises ProphyError."""
    res = core.Result()
    with core.Scratch() as d:
        with open(os.path.join(d, "schema.prophy"), "w") as f:
            f.write(LIBRARY)
        frontend.call(["--python_out", d, os.path.join(d, "schema.prophy")])
        lib = pyside.load_module(os.path.join(d, "schema.py"))
    prophy = lib.prophy
    for p in points:
        res.states += 1
        res.transitions += 1
        res.traces += 1
        scope, text = {"prophy": prophy, "lib": lib}, RUNTIME[p.kind] % p.text
        try:
            exec(text, scope)
            if p.kind != "enum":
                for e in "<>":
                    value, other = scope["T"](), scope["T"]()
                    other.decode(value.encode(e), e)
                    if other.encode(e) != value.encode(e):
                        raise ValueError("the default value does not survive a round trip")
            why = None
        except Exception as e:
            why = e
        family = "runtime:" + " ".join(p.name.split("/")[1].split()[:2])
        if p.legal and why is not None:
            res.violation(family, "a legal class is refused: %s: %s\n%s" % (type(why).__name__, why, text), case=p.name)
        elif not p.legal and why is None:
            res.violation(family, "a rule-breaking class is accepted by the Python runtime\n%s" % text, case=p.name)
        elif not p.legal and not isinstance(why, prophy.ProphyError):
            res.violation(family, "a rule-breaking class is answered by %s: %s\n%s" % (type(why).__name__, why, text), case=p.name)
        else:
            res.outcomes["runtime: built" if p.legal else "runtime: " + re.sub(r"'.*?'|\d+|[({].*[)}]", "*", str(why))[:60]] += 1
    return res


def check(ctx):
    t = ctx.thorough
    points = list(itertools.chain(struct_points(t), nested_points(t), sizer_points(t), name_points(t), number_points(t), arm_points(t)))
    seen, unique = set(), []
    for p in points:
        if p.text not in seen:
            seen.add(p.text)
            unique.append(p)
    points = ctx.pick(unique)
    words = ctx.pick(list(word_points(t)))
    legal = [p for p in points if p.legal]
    plan = []
    for flag in (True, False):
        plan += [("legal", g) for g in core.chunks([p for p in legal if p.cpp_full is flag], 60)]
    isar = ctx.pick(list(itertools.chain(isar_struct_points(t), isar_sizer_points(t), isar_limited_points(t), isar_other_points(t), isar_comment_points(t))))
    lenient = ctx.pick(list(lenient_points()))
    for flag in (True, False):
        plan += [("legal", g) for g in core.chunks([p for p in isar if p.legal and p.cpp_full is flag], 100)]
    plan += [("open", g) for g in core.chunks([p for p in points if p.legal is None], 12)]
    plan += [("open", g) for g in core.chunks([p for p in isar + lenient if p.legal is None and p.cpp_full], 40)]
    plan += [("lenient", g) for g in core.chunks(lenient, 100)]
    plan += [("illegal", g) for g in core.chunks([p for p in isar if p.legal is False], 150)]
    for place, text in PLACES:
        plan += [("open", g) for g in core.chunks([p for p in words if p.name.startswith("word/%s " % place)], 40)]
    plan += [("illegal", g) for g in core.chunks([p for p in points if p.legal is False], 150)]
    built = ctx.pick(list(runtime_points(t)))
    plan += [("runtime", g) for g in core.chunks(built, 400)]
    res = core.parallel(dispatch, plan, ctx.seed)
    res.extra["classes built by hand"] = len(built)
    res.extra["legal schemas"] = len(legal)
    res.extra["rule breakers"] = sum(p.legal is False for p in points)
    res.extra["isar schemas"] = len(isar) + len(lenient)
    res.extra["left open by the documents"] = sum(p.legal is None for p in points) + len(words)
    return res


def main():
    return core.run("C12", check, assumptions=[
        "bounded: a library of %d types, structs of one to three fields, unions of one to three arms, one rule broken at a time" % len(TYPES),
        "the C++ sources are compiled by the compiler at hand, as C++11"])
