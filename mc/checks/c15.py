"""C15: definition order does not matter for isar inputs."""
import itertools
import os
from xml.sax.saxutils import quoteattr

from .. import core, files, isarside, pyside, ref, space

KINDS = "KETSUM"    # constant, enum, typedef, struct, union, message (a dynamic struct)
TYPES = "ETSUM"
EXPR1 = ["%s + 1", "(%s)", "%s*2", "%s<<1", "7-(%s)/8", "shiftLeft(%s, 1)", "%s", "-1+%s+2", "%s>>0", "0x10+%s"]
EVAL1 = [lambda a: a + 1, lambda a: a, lambda a: a * 2, lambda a: a << 1, lambda a: 7 - a // 8, lambda a: a << 1, lambda a: a,
         lambda a: a + 1, lambda a: a, lambda a: a + 16]
EXPR2 = ["%s+%s", "%s * %s", "bitMaskOr(%s, %s)", "(%s)+(%s)", "1+%s/%s", "%s<<(%s-%s)"]
EVAL2 = [lambda a, b: a + b, lambda a, b: a * b, lambda a, b: a | b, lambda a, b: a + b, lambda a, b: 1 + a // b, None]


class Def(object):
    def __init__(self, name, kind, deps):
        self.name, self.kind, self.deps = name, kind, deps
        self.xml, self.decl, self.value, self.enumerators = None, None, None, []


class Invalid(Exception):
    pass


def symbol(d, which=0):
    """A name usable in an expression, with its value."""
    if d.kind == "K":
        return d.name, d.value
    name, value = d.enumerators[which % len(d.enumerators)]
    return name, value


def combine(symbols, salt):
    if len(symbols) == 1:
        k = salt % len(EXPR1)
        text, value = EXPR1[k] % symbols[0][0], EVAL1[k](symbols[0][1])
    else:
        k = salt % 5
        text = EXPR2[k] % (symbols[0][0], symbols[1][0])
        value = EVAL2[k](symbols[0][1], symbols[1][1])
        for s in symbols[2:]:
            text, value = "%s + %s" % (text, s[0]), value + s[1]
    if not 0 < value < 5000:
        raise Invalid()
    return text, value


def named(index, total, style):
    letter = "abcdefghijklmnop"[index if style else total - 1 - index]
    return letter.upper() if index % 2 else "x" + letter


def definitions(kinds, edges, salt):
    """edges[i]: indices below i that definition i depends on. Raises Invalid for impossible combinations."""
    n = len(kinds)
    out = []
    for i, k in enumerate(kinds):
        deps = [out[j] for j in edges[i]]
        d = Def("%s%s%d" % (k, named(i, n, salt % 2), i), k, [x.name for x in deps])
        s = salt + i
        if k == "K":
            if any(x.kind not in "KE" for x in deps):
                raise Invalid()
            if deps:
                text, d.value = combine([symbol(x, s) for x in deps], s)
            else:
                text, d.value = str(2 + i), 2 + i
            d.xml = "<constant name=%s value=%s/>" % (quoteattr(d.name), quoteattr(text))
        elif k == "E":
            if any(x.kind not in "KE" for x in deps):
                raise Invalid()
            if deps:
                text, value = combine([symbol(x, s) for x in deps], s)
            else:
                text, value = str(1 + i), 1 + i
            d.enumerators = [(d.name + "_p", value), (d.name + "_q", value + 50), (d.name + "_r", value + 9)]
            texts = [text, "%d" % (value + 50), "%s_p + 9" % d.name]
            d.xml = "<enum name=%s>%s</enum>" % (quoteattr(d.name), "".join(
                "<enum-member name=%s value=%s/>" % (quoteattr(m), quoteattr(t)) for (m, _), t in zip(d.enumerators, texts)))
            d.decl = ref.Enum(d.name, d.enumerators)
        elif k == "T":
            if len(deps) > 1 or any(x.kind not in TYPES for x in deps):
                raise Invalid()
            target = deps[0].decl if deps else ref.SCALARS["u16"]
            d.xml = "<typedef name=%s type=%s/>" % (quoteattr(d.name), quoteattr(target.name))
            d.decl = ref.Typedef(d.name, target)
        elif k == "U":
            arms, used = [(7000, "7000", ref.SCALARS["u8"], "z")], {7000}
            for j, x in enumerate(deps):
                t, disc, text = ref.SCALARS["u16"], 6000 + j, str(6000 + j)
                if x.kind == "K" or (x.kind == "E" and s % 2):
                    text, disc = symbol(x, s)
                    if disc in used:
                        text, disc = text + " + 6500", disc + 6500
                    if disc in used:
                        raise Invalid()
                else:
                    t = x.decl
                    if t.stiffness != ref.FIXED:
                        raise Invalid()
                used.add(disc)
                arms.append((disc, text, t, "m%d" % j))
            d.xml = "<union name=%s>%s</union>" % (quoteattr(d.name), "".join(
                "<member type=%s name=%s discriminatorValue=%s/>" % (quoteattr(t.name), quoteattr(m), quoteattr(text))
                for _, text, t, m in arms))
            d.decl = ref.Union(d.name, [(disc, t, m) for disc, _, t, m in arms])
        else:
            members, xml = [ref.Member("z", ref.SCALARS["u8"])], ['<member type="u8" name="z"/>']

            def add(m, t, kind="plain", size=None):
                dim = ""
                if kind == "fixed":
                    dim = "<dimension size=%s/>" % quoteattr(size[0])
                elif kind == "lim":
                    dim = '<dimension isVariableSize="true" size=%s/>' % quoteattr(size[0])
                elif kind == "dyn":
                    dim = '<dimension isVariableSize="true"/>'
                opt = ' optional="true"' if kind == "opt" else ""
                xml.append("<member type=%s name=%s%s>%s</member>" % (quoteattr(t.name), quoteattr(m), opt, dim))
                members.append(ref.Member(m, t, kind, size[1] if size else None, sizer=m + "_len" if kind in ("lim", "dyn") else None))

            for j, x in enumerate(deps):
                m = "m%d" % j
                if x.kind == "K" or (x.kind == "E" and s % 2):
                    sym = symbol(x, s)
                    text = sym
                    if s % 3 == 0:
                        text = ("%s*2" % sym[0], sym[1] * 2)
                    add(m, ref.SCALARS["u16"], "lim" if s % 5 == 1 and k == "S" else "fixed", text)
                else:
                    t = x.decl
                    if t.stiffness == ref.DYNAMIC:
                        if k != "M":
                            raise Invalid()
                        add(m, t)
                    else:
                        how = (s // 2) % 3
                        add(m, t, ("plain", "fixed", "opt")[how], ("2", 2) if how == 1 else None)
            if k == "M":
                add("d", ref.SCALARS["u16"] if s % 2 else ref.SCALARS["u64"], "dyn")
                add("y", ref.SCALARS["u8"])
            tag = "message" if k == "M" and s % 2 else "struct"
            d.xml = "<%s name=%s>%s</%s>" % (tag, quoteattr(d.name), "".join(xml), tag)
            d.decl = ref.Struct(d.name, members)
        out.append(d)
    return out


def graphs(n):
    """All ways to depend on earlier definitions."""
    pairs = [(j, i) for i in range(n) for j in range(i)]
    for mask in range(1 << len(pairs)):
        edges = [[] for _ in range(n)]
        for b, (j, i) in enumerate(pairs):
            if mask >> b & 1:
                edges[i].append(j)
        yield mask, edges


SHAPES = {
    "chain": lambda i: [i - 1] if i else [],
    "ladder": lambda i: [j for j in (i - 2, i - 1) if j >= 0],
    "rungs": lambda i: [j for j in (i - 3, i - 1) if j >= 0],
    "tree": lambda i: [(i - 1) // 2] if i else [],
    "star": lambda i: [0] if i else [],
    "pairs": lambda i: [i - 1] if i % 2 else [],
    "strands": lambda i: [i - 3] if i >= 3 else [],
    "lattice": lambda i: [j for j in ((i - 1, i - 3) if i % 3 else (i - 3,)) if j >= 0],
}
ROWS = ["S", "ST", "STU", "SU", "TSM", "TTTS", "KS", "KKES", "EST", "KESTU", "KSTUSTSUST", "EK", "KE"]


def large_cases(thorough):
    """Definitions by the dozen, in shapes that grow regularly."""
    for shape in sorted(SHAPES):
        for total in (5, 6, 8, 9, 12) if thorough else (6, 9, 12):
            for row in ROWS:
                for last in ("", "all"):
                    kinds = (row * total)[:total] + ("S" if last else "")
                    edges = [SHAPES[shape](i) for i in range(total)] + ([list(range(total))] if last else [])
                    # what cannot depend on the kind that the shape wants depends on something else or on nothing
                    for i, deps in enumerate(edges):
                        able = {"K": "KE", "E": "KE", "T": TYPES}.get(kinds[i], KINDS)
                        deps = [j if kinds[j] in able else j - 1 for j in deps]
                        deps = sorted(set(j for j in deps if j >= 0 and kinds[j] in able))
                        edges[i] = deps[-1:] if kinds[i] == "T" else deps
                    for salt in (0, 1, 2, 5) if thorough else (total % 4, total % 4 + 1):
                        yield Case("%s %d %s%s %d" % (shape, total, row, last, salt), kinds, edges, salt)


def orders(defs):
    """All orders of a few definitions; of many: both directions, turned, one moved to either end, two exchanged, shuffled like cards."""
    if len(defs) < 6:
        return list(itertools.permutations(defs))
    out, n = [], len(defs)
    for d in (list(defs), list(reversed(defs))):
        out += [d[i:] + d[:i] for i in range(n)]
        out += [[d[i]] + d[:i] + d[i + 1:] for i in range(n)]
        out += [d[:i] + d[i + 1:] + [d[i]] for i in range(n)]
        out += [d[:i] + [d[i + 1], d[i]] + d[i + 2:] for i in range(n - 1)]
        out += [[x for k in range(step) for x in d[k::step]] for step in (2, 3, 4)]
        out += [sorted(d, key=lambda x: x.name), sorted(d, key=lambda x: x.name[1:])]
    seen = {tuple(x.name for x in defs[::-1]): 0}
    out = [o for o in out if seen.setdefault(tuple(x.name for x in o), id(o)) == id(o)]
    return out + [list(reversed(defs))]


def document(defs):
    return "<x>\n%s\n</x>\n" % "\n".join(d.xml for d in defs)


def facts(nodes):
    """Everything the model says about layout, by name."""
    out = {}
    for n in nodes:
        if hasattr(n, "kind"):
            out[n.name] = (n.kind, n.byte_size, n.alignment, [
                (m.name, m.kind, m.byte_size, m.alignment, getattr(m, "numeric_size", None), getattr(m, "padding", None))
                for m in n.members] if hasattr(n, "members") else None)
    return out


def order_problem(defs, nodes):
    names = [n.name for n in nodes]
    if sorted(names) != sorted(d.name for d in defs):
        return "the output defines %s, the input %s" % (" ".join(names), " ".join(sorted(d.name for d in defs)))
    place = {name: i for i, name in enumerate(names)}
    for d in defs:
        for dep in d.deps:
            if place[dep] > place[d.name]:
                return "%s comes before %s, which it depends on, in: %s" % (d.name, dep, " ".join(names))


def layout_problem(defs, nodes):
    by_name = {n.name: n for n in nodes}
    for d in defs:
        node = by_name[d.name]
        if d.kind in "SUM":
            t = d.decl
            want = (t.stiffness, t.align, t.size if t.stiffness == ref.FIXED else node.byte_size)
            got = (node.kind, node.alignment, node.byte_size)
            if got != want:
                return "%s has (stiffness, alignment, size) %s, the layout rules give %s" % (d.name, got, want)


def report(res, key, what, defs, case):
    res.violation(key, "%s\n%s" % (what, document(defs)), case=case, input=document(defs))


def compile_(text, directory, outputs=("python",)):
    path = os.path.join(directory, "schema.xml")
    with open(path, "w") as f:
        f.write(text)
    args = ["--isar", path]
    for o in outputs:
        args += ["--%s_out" % o, directory]
    return pyside.prophyc_main(args)["schema"]


def import_problem(defs, path):
    try:
        module = pyside.load_module(path)
    except Exception as e:
        return "the generated module does not import: %s: %s" % (type(e).__name__, e)
    for d in defs:
        if d.kind == "K":
            if getattr(module, d.name, None) != d.value:
                return "%s is %s in Python, not %d" % (d.name, getattr(module, d.name, None), d.value)
        elif d.kind == "E":
            for m, v in d.enumerators:
                if getattr(module, m, None) != v:
                    return "%s is %s in Python, not %d" % (m, getattr(module, m, None), v)
        elif d.kind in "SUM":
            got = getattr(module, d.name)().encode("<")
            want = ref.encode(d.decl, space.default_value(d.decl), "<")
            if got != want:
                return "a default %s encodes as %r, not as %r" % (d.name, got, want)


class Case(object):
    def __init__(self, name, kinds, edges, salt):
        self.name, self.kinds, self.edges, self.salt = name, kinds, edges, salt


def explore(res, case, scratch):
    from prophyc import model
    from prophyc.parsers.isar import IsarParser
    try:
        defs = definitions(case.kinds, case.edges, case.salt)
    except Invalid:
        return
    res.states += 1
    res.outcomes["".join(sorted(case.kinds)) if len(defs) < 6 else case.name.split(" ")[0] + " of %d" % len(defs)] += 1
    first = None
    parser = IsarParser()

    def bad(key, what, perm):
        report(res, "%s:%s" % (key, case.name), what, perm, case.name)

    perms = orders(defs)
    # the whole program, for the orders that need most and least rearranging
    for perm in [perms[0], perms[-1]]:
        res.traces += 1
        try:
            with core.Watchdog(20):
                nodes = compile_(document(perm), scratch)
        except (Exception, core.Hang) as e:
            return bad("compile", "prophyc fails: %s: %s" % (type(e).__name__, e), perm)
        problem = order_problem(defs, nodes) or import_problem(defs, os.path.join(scratch, "schema.py")) or \
            layout_problem(defs, nodes)
        if problem:
            return bad("program", problem, perm)
        if first is None:
            first = facts(nodes)
        elif facts(nodes) != first:
            return bad("layout", "layouts depend on the order", perm)
    # every order of the definitions as a list
    by_name = {node.name: node for node in parser.parse(document(defs), "schema.xml", None)}
    for perm in perms:
        res.transitions += 1
        nodes = [by_name[d.name] for d in perm]
        try:
            with core.Watchdog(20):
                model.topological_sort(nodes)
        except (Exception, core.Hang) as e:
            return bad("sort", "definitions are not sorted: %s: %s" % (type(e).__name__, e), perm)
        problem = order_problem(defs, nodes)
        if problem:
            return bad("sort", problem, perm)
    # every order in the document; the parser reads it kind by kind, so one per order within the kinds
    seen = set()
    for perm in perms:
        signature = tuple(d.name for k in KINDS for d in perm if d.kind == k)
        if signature in seen:
            continue
        seen.add(signature)
        res.transitions += 1
        nodes = parser.parse(document(perm), "schema.xml", None)
        try:
            with core.Watchdog(20):
                nodes, _ = model.evaluate_model(nodes)
        except (Exception, core.Hang) as e:
            return bad("compile", "the model is not evaluated: %s: %s" % (type(e).__name__, e), perm)
        problem = order_problem(defs, nodes)
        if problem or facts(nodes) != first:
            return bad("document", problem or "layouts depend on the order", perm)


def work(cases):
    res = core.Result()
    with core.Scratch() as scratch:
        for c in cases:
            (explore_sack if c.name.startswith("sack") else explore)(res, c, scratch)
            if len(res.violations) > 10:
                break
    return res


def cases(thorough):
    for n, salts in ((1, 10), (2, 10), (3, 10), (4, 1 if not thorough else 6)):
        for kinds in itertools.product(KINDS, repeat=n):
            for mask, edges in graphs(n):
                if n == 4 and not thorough and bin(mask).count("1") < 2:
                    continue
                for salt in range(salts):
                    shift = (mask * 7 + sum(ord(k) * (i + 1) for i, k in enumerate(kinds))) if n == 4 else 0
                    yield Case("%s-%d-%d" % ("".join(kinds), mask, salt), kinds, edges, salt + shift)
    for c in large_cases(thorough):
        yield c
    if thorough:
        # five definitions: every graph, kinds that exercise constants, types and both
        for kinds in ("KKEKS", "KEKSU", "ETSTM", "KSTUS", "EKESS", "STSMT", "KKKKS", "EEKSU"):
            for mask, edges in graphs(5):
                yield Case("%s-%d-0" % (kinds, mask), kinds, edges, mask)


# --- sack: C++ demands an order itself, so all orders that respect the dependencies

CTYPES = [("unsigned char", "u8"), ("unsigned short", "u16"), ("unsigned long long", "u64"), ("int", "i32"), ("float", "r32")]
# enum, typedef, struct, union, struct in a namespace, struct and unnamed struct defined by a typedef, struct with C linkage, struct
# with a struct defined within
# and a constant; constants and enumerators give array sizes
SACK_KINDS = "ETSUVWAXNK"


def sack_definitions(kinds, edges, salt):
    out = []
    for i, k in enumerate(kinds):
        deps = [out[j] for j in edges[i]]
        d = Def("%s%s%d" % (k, named(i, len(kinds), salt % 2), i), k, [x.name for x in deps])
        d.deps_of = deps
        text, scalar = CTYPES[(salt + i) % len(CTYPES)]
        scalar = ref.SCALARS[scalar if scalar != "r32" else "float"]
        d.cpp, d.within, d.extents = d.name, None, []
        d.announced = {"S": "struct %s;", "U": "union %s;", "V": "namespace n { struct %s; }", "W": "struct %s;", "N": "struct %s;"}.get(k, "")
        d.announced = d.announced and d.announced % d.name
        if k == "E":
            if deps:
                raise Invalid()
            numbers = ((0, 1, 0x7fffffff, -1, -2, -0x80000000), (i + 1, -2), (-1, 0, i + 1), (5, 4, 0))[salt % 4]
            rows = [("%s_%d" % (d.name, j), v) for j, v in enumerate(numbers)]
            d.text = "enum %s { %s };" % (d.name, ", ".join("%s = %d" % r for r in rows))
            d.decl = ref.Enum(d.name, [(n, v & 0xffffffff) for n, v in rows])
            d.extents = [r for r in rows if 0 < r[1] < 100]
        elif k == "K":
            if deps:
                raise Invalid()
            d.text = "#define %s %d" % (d.name, i + 2)
            d.decl = ref.Const(d.name, i + 2)
            d.extents = [(d.name, i + 2)]
        elif k == "T":
            if len(deps) > 1 or deps and deps[0].kind == "K":
                raise Invalid()
            d.text = "typedef %s %s;" % (deps[0].cpp if deps else text, d.name)
            d.decl = deps[0].decl if deps else scalar
        else:
            rows = [("z", text, scalar)] + [("m%d" % j, x.cpp, x.decl) for j, x in enumerate(deps) if x.kind != "K"]
            if salt % 3 == 1:
                rows = rows[1:] + rows[:1]
            if k == "U":
                if any(x.kind == "K" for x in deps):
                    raise Invalid()
                d.decl = ref.Union(d.name, [(j, t, m) for j, (m, _, t) in enumerate(rows)])
                d.text = "union %s { %s };" % (d.name, " ".join("%s %s;" % (c, m) for m, c, _ in rows))
            else:
                arrays = [("2", 2) if (salt >> 1) + j & 1 else None for j in range(len(rows))]
                for x in deps:
                    for e in x.extents:
                        rows.append(("x" + e[0], text, scalar))
                        arrays.append(e)
                body = " ".join("%s %s%s;" % (c, m, "[%s]" % a[0] if a else "") for (m, c, _), a in zip(rows, arrays))
                name = {"V": "n__%s", "N": "%s__Inner"}.get(k, "%s") % d.name
                d.decl = ref.Struct(name, [ref.Member(m, t, "fixed", a[1]) if a else ref.Member(m, t)
                                           for (m, _, t), a in zip(rows, arrays)])
                d.text = {"S": "struct %(n)s { %(b)s };", "V": "namespace n { struct %(n)s { %(b)s }; }",
                          "W": "typedef struct %(n)s { %(b)s } other_%(n)s;", "A": "typedef struct { %(b)s } %(n)s;",
                          "X": 'extern "C" { struct %(n)s; struct %(n)s { %(b)s }; }',
                          "N": "struct %(n)s { struct Inner { %(b)s }; unsigned char y; Inner inner; };"}[k] % {"n": d.name, "b": body}
                d.cpp = "n::" + d.name if k == "V" else d.name
                if k == "N":
                    d.within = d.decl
                    d.decl = ref.Struct(d.name, [ref.Member("y", ref.SCALARS["u8"]), ref.Member("inner", d.within)])
        out.append(d)
    return out


def topological_orders(defs):
    for perm in itertools.permutations(defs):
        place = dict((d.name, i) for i, d in enumerate(perm))
        if all(place[x] < place[d.name] for d in perm for x in d.deps):
            yield perm


def sack_wanted(defs):
    """Structs and enums of the outermost scope and what they use; typedefs vanish."""
    out = set()

    def enter(d):
        if d.kind not in "TK":
            out.add(d.decl.name)
        if d.within:
            out.add(d.within.name)
        for x in d.deps_of:
            enter(x)
    for d in defs:
        if d.kind in "ESWXN":
            enter(d)
    return out


def explore_sack(res, case, scratch):
    defs = sack_definitions(case.kinds, case.edges, case.salt)
    res.states += 1
    res.outcomes["sack " + "".join(sorted(case.kinds))] += 1
    wanted = sack_wanted(defs)
    decls = [x for d in defs for x in (d.within, d.decl) if x and d.kind not in "TK" and x.name in wanted]
    orders = list(topological_orders(defs))
    for moved in moved_sets(defs):
        if sack_supplied(res, case, defs, moved, orders[-1], scratch):
            return
    for i, perm in enumerate(orders):
        text = "\n".join([d.announced for d in defs if d.announced and (i + case.salt) % 3 == 0] + [d.text for d in perm]
                         + [d.announced for d in defs if d.announced and (i + case.salt) % 3 == 1]) + "\n"
        res.transitions += 1
        res.traces += 1
        path = os.path.join(scratch, "schema.hpp")
        with open(path, "w") as f:
            f.write(text)
        try:
            with core.Watchdog(20):
                nodes = pyside.prophyc_main(["--sack", path, "--python_out", scratch])["schema"]
        except (Exception, core.Hang) as e:
            problem = "prophyc fails: %s: %s" % (type(e).__name__, e)
        else:
            problem = sack_problem(decls, nodes, lambda: pyside.load_module(os.path.join(scratch, "schema.py")))
        if problem:
            res.violation("sack:" + case.name, "%s\n%s" % (problem, text), case=case.name, input=text)
            return


def moved_sets(defs):
    """Definitions that can come from an isar file instead: with all they use."""
    for mask in range(1, 1 << len(defs)):
        moved = [d for i, d in enumerate(defs) if mask >> i & 1]
        if all(d.kind in "ESUWK" and all(x in moved for x in d.deps_of) for d in moved):
            yield moved


def sack_supplied(res, case, defs, moved, order, scratch):
    """The moved definitions come from an isar file named by --include_isar."""
    text = "\n".join(d.text for d in order if d not in moved) + "\n"
    xml, _ = isarside.document([d.decl for d in moved], isarside.Style(0), ())
    res.transitions += 1
    res.traces += 1
    for name, content in (("schema.hpp", text), ("defs.xml", xml)):
        with open(os.path.join(scratch, name), "w") as f:
            f.write(content)
    wanted = sack_wanted([d for d in defs if d not in moved])
    left = [x for d in defs for x in (d.within, d.decl) if x and d.kind not in "TK" and d not in moved and x.name in wanted]
    package = files.Package(scratch)
    try:
        with core.Watchdog(20):
            pyside.prophyc_main(["--isar", os.path.join(scratch, "defs.xml"), "--python_out", package.path])
            nodes = pyside.prophyc_main(["--sack", os.path.join(scratch, "schema.hpp"), "--include_isar",
                                         os.path.join(scratch, "defs.xml"), "--python_out", package.path])["schema"]
    except (Exception, core.Hang) as e:
        problem = "prophyc fails: %s: %s" % (type(e).__name__, e)
    else:
        problem = sack_problem(left, nodes, lambda: package.load("schema"))
    package.close()
    if problem:
        text = "%s--- defs.xml\n%s" % (text, xml)
        res.violation("sack:" + case.name, "%s\n%s" % (problem, text), case=case.name, input=text)
        return True


def sack_problem(decls, nodes, load):
    nodes = [n for n in nodes if type(n).__name__ != "Include"]
    names = [n.name for n in nodes]
    if sorted(names) != sorted(d.name for d in decls):
        return "the output defines %s, the input %s" % (" ".join(names), " ".join(sorted(d.name for d in decls)))
    place = dict((name, i) for i, name in enumerate(names))
    for d in decls:
        for t in [m.type for m in d.members] if isinstance(d, ref.Struct) else [a[1] for a in d.arms] if isinstance(d, ref.Union) else []:
            if t.name in place and place[t.name] > place[d.name]:
                return "%s comes before %s, which it depends on, in: %s" % (d.name, t.name, " ".join(names))
    by_name = dict((n.name, n) for n in nodes)
    for d in decls:
        if d.is_composite and (by_name[d.name].byte_size, by_name[d.name].alignment) != (d.size, d.align):
            return "%s has size %s and alignment %s, the layout rules give %s and %s" % (
                d.name, by_name[d.name].byte_size, by_name[d.name].alignment, d.size, d.align)
    try:
        module = load()
    except Exception as e:
        return "the generated module does not import: %s: %s" % (type(e).__name__, e)
    for d in decls:
        if isinstance(d, ref.Enum):
            got = [(m.name, int(m.value, 0)) for m in by_name[d.name].members]
            if got != d.members or any(getattr(module, n, None) != v for n, v in d.members):
                return "enum %s has %s, in Python %s, not %s" % (d.name, got, [getattr(module, n, None) for n, _ in d.members], d.members)
        elif d.is_composite:
            got, want = getattr(module, d.name)().encode("<"), ref.encode(d, space.default_value(d), "<")
            if got != want:
                return "a default %s encodes as %r, not as %r" % (d.name, got, want)


def sack_cases(thorough):
    for n, salts in ((1, 5), (2, 6), (3, 1 if not thorough else 6)):
        for kinds in itertools.product(SACK_KINDS if n < 3 or thorough else "ESUANK", repeat=n):
            for mask, edges in graphs(n):
                for salt in range(salts):
                    case = Case("sack-%s-%d-%d" % ("".join(kinds), mask, salt), kinds, edges, salt + (mask if n == 3 else 0))
                    try:
                        sack_definitions(kinds, edges, case.salt)
                    except Invalid:
                        continue
                    yield case
    for kinds in ("ESUS", "SSSS", "TUVW", "WVUS", "STUS", "VVSU", "AXNS", "UNAX") if thorough else ("ESUS", "WVUS"):
        for mask, edges in graphs(4):
            case = Case("sack-%s-%d-0" % (kinds, mask), kinds, edges, mask)
            try:
                sack_definitions(kinds, edges, case.salt)
            except Invalid:
                continue
            yield case


def sack_available():
    import prophyc
    from prophyc.parsers.sack import SackParser
    return bool(SackParser.check())


def valid(case):
    try:
        definitions(case.kinds, case.edges, case.salt)
        return True
    except Invalid:
        return False


def check(ctx):
    todo = [c for c in ctx.pick(cases(ctx.thorough)) if valid(c)]
    res = core.parallel(work, core.chunks(todo, 120), ctx.seed)
    res.extra["definition sets"] = len(todo)
    if sack_available():
        todo = ctx.pick(sack_cases(ctx.thorough))
        res.merge(core.parallel(work, core.chunks(todo, 60), ctx.seed))
        res.extra["definition sets in C++ headers"] = len(todo)
    return res


def main():
    return core.run("C15", check, assumptions=[
        "bounded: all dependency graphs of up to 4 definitions of 6 kinds (5 in the thorough tier for chosen kinds), all orders;"
        " regular graphs of up to 13 definitions in up to 100 orders",
        "sack inputs: up to 3 definitions of 10 kinds (4 for chosen kinds), in the orders that C++ allows; types nobody uses may be left out"])
