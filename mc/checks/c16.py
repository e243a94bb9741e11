"""C16: a schema split over files means what the single file means."""
import os
import re
import sys

from .. import core, cppside, files, frontend, pyside, ref, space
from ..pyside import hexs
from .c08 import CLOSING, PRELUDE, expectations

SCHEMAS = {s.name: s for s in files.schemas()}
DRIVER = None
OPENED = None


def _audit(event, args):
    if OPENED is not None and event == "open" and isinstance(args[0], str) and args[0].endswith((".prophy", ".xml")):
        OPENED.append(os.path.realpath(args[0]))


class Point(object):
    def __init__(self, split, layout, where="root", inputs="all", style="plain", action=None, isar=False):
        self.isar = isar
        self.split, self.layout, self.where, self.inputs, self.style, self.action = split, layout, where, inputs, style, action
        self.name = "%s %s|%s|%s|%s%s" % (split.name, layout, where, inputs, style, "|%s" % (action,) if action else "")
        self.name += "|isar" if isar else ""

    def on_disk(self):
        return files.Layout(self.split, self.layout, ".xml" if self.isar else ".prophy")


def points(thorough):
    for schema in SCHEMAS.values():
        for n, split in enumerate(files.splits(schema)):
            single = len(split.files) == 1
            if thorough or len(split.files) == len(schema.decls):
                product = [(l, w, i, s) for l in files.LAYOUTS for w in files.WHERE for i in files.INPUTS for s in files.INCLUDES]
            else:
                # every value of every dimension, and pairs of them in turn
                product = [(l, files.WHERE[(n + k) % 4], files.INPUTS[(n + k // 2) % 4], files.INCLUDES[(n + k) % 5]) for k, l in enumerate(files.LAYOUTS)]
                product += [("flat", "root", "all", "plain")]
            for x in product[:1] if single else product:
                yield Point(split, *x)
            for k, x in enumerate(product[:1] if single else product):
                if thorough or len(split.files) < len(schema.decls) or k % 3 == 0:
                    yield Point(split, *x, isar=True)


def run_commands(root, point, layout, outputs):
    """Runs prophyc; returns None or what went wrong, and the model nodes of all runs."""
    global OPENED
    nodes = {}
    for cwd, args in files.commands(root, layout, point.where, point.inputs, outputs, options(root, point)):
        OPENED = []
        outcome = frontend.call(args, cwd)
        opened, OPENED = OPENED, None
        if outcome.kind != "ok":
            return "prophyc %s in %s: %s" % (" ".join(args), os.path.relpath(cwd, root), outcome), nodes, opened
        twice = sorted(set(os.path.relpath(x, root) for x in opened if opened.count(x) > 1))
        if twice:
            return "%s read more than once in one run" % ", ".join(twice), nodes, opened
        if outcome.stderr.strip():
            return "warnings: " + outcome.stderr.strip()[:300], nodes, opened
        nodes.update(outcome.nodes)
    return None, nodes, None


def options(root, point):
    return ["--isar", "--patch", os.path.join(root, "rules.patch")] if point.isar else []


def lay_out(root, point):
    layout = point.on_disk()
    render = files.isar_includes if point.isar else files.includes
    contents = [render(point.split, layout, k, point.style) for k in range(len(point.split.files))]
    if point.isar:
        with open(os.path.join(root, "rules.patch"), "w") as f:
            f.write("".join(rules for _, rules in contents))
        contents = [text for text, _ in contents]
    files.write(root, layout, contents)
    return layout


_expected = {}


def expected(schema):
    """name -> values with their canonical encodings."""
    if schema.name not in _expected:
        out = {}
        for t in schema.composites:
            rows = []
            for v in space.values(t):
                if ref.tail_aligned(t, v):
                    rows.append((v, ref.encode(t, v, "<"), ref.encode(t, v, ">")))
            out[t.name] = rows[:12] + rows[12::max(1, len(rows) // 24)]
        _expected[schema.name] = out
    return _expected[schema.name]


def module_problem(res, schema, module, objs):
    numbers = schema.numbers
    for o in objs:
        names = [o.name] if isinstance(o, ref.Const) else [n for n, _ in o.members] if isinstance(o, ref.Enum) else []
        for n in names:
            if getattr(module, n, None) != numbers[n]:
                return "%s is %r instead of %r" % (n, getattr(module, n, None), numbers[n])
        if not isinstance(o, (ref.Struct, ref.Union)):
            continue
        cls = getattr(module, o.name)
        for v, little, big in expected(schema)[o.name]:
            res.transitions += 2
            msg = cls()
            pyside.set_value(msg, o, v)
            for e, data in (("<", little), (">", big)):
                got = msg.encode(e)
                if got != data:
                    return "%s %r encodes (%s) as %s instead of %s" % (o.name, v, e, hexs(got), hexs(data))
            back = cls()
            back.decode(little, "<")
            if back.encode(">") != big:
                return "%s %s does not survive decode and encode" % (o.name, hexs(little))


def model_problem(schema, nodes):
    """The sizes the C++ generators work with."""
    found = {}
    for stem, items in nodes.items():
        for n in items:
            if type(n).__name__ in ("Struct", "Union"):
                found[n.name] = n
    for o in schema.composites:
        n = found.get(o.name)
        if n is None:
            continue
        if n.alignment != o.align:
            return "alignment of %s is %s instead of %s" % (o.name, n.alignment, o.align)
        if o.stiffness == ref.FIXED and n.byte_size != o.size:
            return "size of %s is %s instead of %s" % (o.name, n.byte_size, o.size)
        if isinstance(o, ref.Struct) and n.kind != o.stiffness:
            return "kind of %s is %s instead of %s" % (o.name, n.kind, o.stiffness)


def realised(point):
    """Files whose outputs a run writes."""
    if point.inputs != "last":
        return list(range(len(point.split.files)))
    used = set(j for need in point.split.needs for j in need)
    return [k for k in range(len(point.split.files)) if k not in used]


def equivalence(points_):
    res = core.Result()
    undo = frontend.pool_parsers()
    good = {}
    for p in points_:
        res.states += 1
        res.traces += 1
        with core.Scratch() as root:
            package = files.Package(root)
            try:
                problem = examine(res, p, root, package, good)
            except Exception as e:
                problem = "the generated module raises %s: %s" % (type(e).__name__, e)
            finally:
                package.close()
            if problem:
                texts = "\n".join("--- %s\n%s" % (f, open(os.path.join(root, f)).read()) for f in sorted(p.on_disk().paths))
                res.violation("%s:%s" % (p.split.schema.name, problem.split(":")[0].split()[0]), "%s\n%s\n%s" % (p.name, problem, texts), case=p.name)
            else:
                res.outcomes["%d files, %s%s" % (len(p.split.files), p.layout, " in isar" if p.isar else "")] += 1
    undo()
    return res


def examine(res, p, root, package, good):
    layout = lay_out(root, p)
    problem, nodes, _ = run_commands(root, p, layout, [("python", package.path)])
    if problem:
        return problem
    expected_files = ["__init__.py"] + [p.split.stems[k] + ".py" for k in realised(p)]
    if sorted(os.listdir(package.path)) != sorted(expected_files):
        return "outputs are %s instead of %s" % (sorted(os.listdir(package.path)), sorted(expected_files))
    problem = model_problem(p.split.schema, nodes)
    if problem:
        return problem
    if p.inputs == "last":
        # the others were compiled only as includes; let them out as well
        problem, _, _ = run_commands(root, Point(p.split, p.layout, p.where, "each", isar=p.isar), layout, [("python", package.path)])
        if problem:
            return problem
    texts = tuple(open(os.path.join(package.path, s + ".py")).read() for s in p.split.stems)
    if good.get((p.split.name, p.isar)) == texts:
        res.outcomes["same text as an arrangement already examined"] += 1
        return None
    for k, stem in enumerate(p.split.stems):
        problem = module_problem(res, p.split.schema, package.load(stem), p.split.objects(k))
        if problem:
            return "%s.py: %s" % (stem, problem)
    good.setdefault((p.split.name, p.isar), texts)


# --- C++: compiled file by file and linked

def cpp_group(points_):
    res = core.Result()
    for p in points_:
        res.states += 1
        res.traces += 1
        with core.Scratch() as root:
            try:
                problem = cpp_problem(res, p, root)
            except cppside.BuildError as e:
                problem = "the C++ does not build: %s" % str(e)[:600]
            if problem:
                texts = "\n".join("--- %s\n%s" % (f, open(os.path.join(root, f)).read()) for f in sorted(p.on_disk().paths))
                key = "cpp:%s" % p.split.schema.name
                if p.isar and re.search(r"fatal error: '[\w./]+/f[a-f]\.ppf?\.hpp' file not found", problem):
                    key = "cpp: isar include that names a directory"
                res.violation(key, "%s\n%s\n%s" % (p.name, problem, texts), case="cpp " + p.name)
            else:
                res.outcomes["C++ of %d files" % len(p.split.files)] += 1
    return res


def cpp_problem(res, p, root):
    layout = lay_out(root, p)
    out = os.path.join(root, "out")
    os.makedirs(out)
    problem, _, _ = run_commands(root, p, layout, [("cpp_full", out), ("cpp", out)])
    if problem:
        return problem
    schema = p.split.schema
    types = schema.composites
    lines = ['#include "%s.ppf.hpp"' % s for s in reversed(p.split.stems)] + ['#include "driver.hpp"', "using namespace prophy::generated;"]
    lines += ["static const char check_%s[%s == %d ? 1 : -1] = {};" % (n, n, v) for n, v in schema.numbers.items()]
    lines += ["static const verif::handler handlers[] = {"] + ["    &verif::handle<%s>," % t.name for t in types]
    lines += ["};", "int main() { return verif::run(handlers, %d); }" % len(types)]
    with open(os.path.join(out, "main.cpp"), "w") as f:
        f.write("\n".join(lines) + "\n")
    flags = cppside.FLAGS + ["-I" + cppside.INCLUDE, "-I" + cppside.HERE, "-I" + out]
    for s in p.split.stems:
        cppside.compiler(flags + ["-c", s + ".ppf.cpp"], out)
        cppside.compiler(flags + ["-c", s + ".pp.cpp"], out)
    cppside.compiler(flags + ["main.cpp", DRIVER] + [s + ".ppf.o" for s in p.split.stems] + ["-o", "driver"], out)
    requests, context = [], []
    for i, t in enumerate(types):
        for v, little, big in expected(schema)[t.name]:
            for e, data in (("l", little), ("b", big)):
                requests.append("R %d %s %s" % (i, e, cppside.hexarg(data)))
                context.append((t, v, data))
    for (t, v, data), reply in zip(context, cppside.converse(os.path.join(out, "driver"), requests)):
        res.transitions += 1
        parts = reply.split(" ")
        if parts[0] != "1" or cppside.unhex(parts[-1]) != data:
            return "%s %r: the canonical bytes %s come back from C++ as %s" % (t.name, v, hexs(data), reply)
    if p.isar:
        return None     # counters have other names
    # raw layout
    todo, source = [], [PRELUDE.replace('#include "schema.pp.hpp"', "\n".join('#include "%s.pp.hpp"' % s for s in p.split.stems))]
    for t in types:
        for expr, numbers, what in expectations(t):
            source.append(expr + ",")
            todo.append((t, numbers, what))
    with open(os.path.join(out, "layout.cpp"), "w") as f:
        f.write("\n".join(source + [CLOSING]))
    cppside.compiler(flags + ["layout.cpp"] + [s + ".pp.o" for s in p.split.stems] + ["-o", "layout"], out)
    import subprocess
    got = [int(x) for x in subprocess.check_output([os.path.join(out, "layout")]).split()]
    for t, numbers, what in todo:
        for n in numbers:
            v = got.pop(0)
            res.transitions += 1
            if n is not None and n != v:
                return "raw C++ layout of %s, %s: %d instead of %d" % (t.name, what, v, int(n))


def cpp_points(thorough):
    for schema in SCHEMAS.values():
        all_ = [s for s in files.splits(schema) if len(s.files) > 1]
        all_.sort(key=lambda s: -len(s.files))
        chosen = all_ if thorough else all_[:1] + all_[1::max(1, len(all_) // 5)]
        for k, s in enumerate(chosen):
            yield Point(s, files.LAYOUTS[k % len(files.LAYOUTS)], "root", ["all", "reversed", "each"][k % 3], files.INCLUDES[k % 5])
            if thorough or k % 3 == 1:
                yield Point(s, files.LAYOUTS[k % len(files.LAYOUTS)], "root", ["all", "reversed", "each"][k % 3], files.INCLUDES[k % 5], isar=True)


# --- includes that cannot be followed

def broken_points(thorough):
    for schema in SCHEMAS.values():
        for split in files.splits(schema):
            edges = [(k, j) for k, need in enumerate(split.needs) for j in need]
            layouts = files.LAYOUTS[:7] if thorough or len(split.files) >= 5 else ("flat", "own")
            for layout in layouts:
                if layout == "own":
                    for k, j in edges:
                        yield Point(split, layout, "root", "all", "plain", ("missing", k, j), isar=True)
                        yield Point(split, layout, "beside", "last", "more", ("missing", k, j), isar=True)
                        yield Point(split, layout, "root", "last", "late", ("directory", k, j), isar=True)
                        yield Point(split, layout, "root", "all", "plain", ("cycle", k, j), isar=True)
                        yield Point(split, layout, "absolute", "last", "plain", ("cycle", k, j), isar=True)
                for k, j in edges:
                    yield Point(split, layout, "root", "all", "plain", ("missing", k, j))
                    yield Point(split, layout, "beside", "reversed", "late", ("missing", k, j))
                    yield Point(split, layout, "root", "each", "plain", ("undeclared", k, j))
                    yield Point(split, layout, "root", "last", "plain", ("directory", k, j))
                for k in range(len(split.files)):
                    yield Point(split, layout, "root", "all", "plain", ("cycle", k, k))
                    for j in sorted(split.reach(k)):
                        yield Point(split, layout, "root", "all", "plain", ("cycle", k, j))
                        yield Point(split, layout, "absolute", "reversed", "plain", ("cycle", k, j))
                        yield Point(split, layout, "root", "last", "plain", ("cycle end", k, j))


def broken(points_):
    """Something an include needs is taken away, or turned into a cycle: the run must end with a diagnostic."""
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points_:
        res.states += 1
        res.traces += 1
        kind, k, j = p.action
        with core.Scratch() as root:
            layout = lay_out(root, p)
            victim = os.path.join(root, layout.paths[j])
            if kind == "missing":
                os.remove(victim)
            elif kind == "directory":
                os.remove(victim)
                os.makedirs(victim)
            elif kind == "cycle":
                with open(victim) as f:
                    text = f.read()
                with open(victim, "w") as f:
                    if p.isar:
                        f.write(text.replace("</xml>", '<xi:include href="%s"/></xml>' % layout.spelling(j, k)))
                    else:
                        f.write('#include "%s"\n' % layout.spelling(j, k) + text)
            elif kind == "cycle end":
                with open(victim, "a") as f:
                    f.write('#include "%s"\n' % layout.spelling(j, k))
            elif kind == "undeclared":
                # the include of j disappears from k
                full = os.path.join(root, layout.paths[k])
                with open(full) as f:
                    lines = f.readlines()
                line = '#include "%s"\n' % layout.spelling(k, j)
                with open(full, "w") as f:
                    f.write("".join(x for x in lines if x != line))
            outcome = None
            out = os.path.join(root, "out")
            os.makedirs(out)
            runs = list(files.commands(root, layout, p.where, p.inputs, [("python", out), ("cpp", out), ("cpp_full", out)], options(root, p)))
            for cwd, args in runs:
                # an input that is gone itself is reported by the command line
                args = [a for a in args if not (a.endswith((".prophy", ".xml")) and not os.path.isfile(os.path.join(cwd, a)))]
                if not args[-1].endswith((".prophy", ".xml")):
                    continue
                outcome = frontend.call(args, cwd)
                res.transitions += 1
                if outcome.kind != "ok":
                    break
            if outcome is None:
                res.outcomes["nothing left to compile"] += 1
                continue
            word = {"missing": "not found", "directory": "not found", "cycle": "included again", "cycle end": "included again", "undeclared": ""}[kind]
            if p.isar and (outcome.kind == "error" or (outcome.kind == "ok" and word in outcome.stderr and (
                    os.path.basename(layout.paths[j]) in outcome.stderr or kind == "cycle"))):
                # isar files may be compiled alone, what they lack is told as a warning
                res.outcomes["%s in isar: %s" % (kind, "refused" if outcome.kind == "error" else "warning")] += 1
                continue
            if not p.isar and outcome.kind == "error" and outcome.located and word in outcome.message and (
                    os.path.basename(layout.paths[j]) in outcome.message or "cycle" in kind or kind == "undeclared"):
                res.outcomes["%s: reported" % kind] += 1
                continue
            texts = "\n".join("--- %s\n%s" % (f, open(os.path.join(root, f)).read()) for f in sorted(layout.paths) if os.path.isfile(os.path.join(root, f)))
            res.violation("%s: %s" % (kind, outcome.kind), "%s\n%s: %s\n%s" % (p.name, kind, outcome, texts), case=p.name)
    undo()
    return res


def invalid_points(thorough):
    for schema in files.invalid_schemas():
        for n, split in enumerate(files.splits(schema)):
            for layout in files.LAYOUTS[:7] if thorough else (files.LAYOUTS[n % 7],):
                for inputs in ("all", "reversed", "last"):
                    for style in ("plain", "more"):
                        yield Point(split, layout, "root", inputs, style)


def invalid(points_):
    """What a single file may not do, several files may not do either."""
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points_:
        res.states += 1
        res.traces += 1
        res.transitions += 1
        with core.Scratch() as root:
            layout = lay_out(root, p)
            out = os.path.join(root, "out")
            os.makedirs(out)
            (cwd, args), = files.commands(root, layout, p.where, p.inputs, [("python", out)])
            outcome = frontend.call(args, cwd)
            if outcome.kind == "error" and outcome.located:
                res.outcomes["invalid: refused"] += 1
                continue
            texts = "\n".join("--- %s\n%s" % (f, open(os.path.join(root, f)).read()) for f in sorted(layout.paths))
            res.violation("invalid: %s" % outcome.kind, "%s\nrefused as one file, but as several ones %s\n%s" % (p.name, outcome, texts), case=p.name)
    undo()
    return res


class Ladder(object):
    """Levels of files, each including all files of the level below: many paths to the same file."""

    def __init__(self, depth, width, language):
        self.depth, self.width, self.language = depth, width, language
        self.name = "ladder %s %dx%d" % (language, depth, width)


def ladder_points():
    for depth, width in ((2, 2), (3, 3), (6, 2), (10, 2), (24, 2), (16, 3)):
        yield Ladder(depth, width, "prophy")


def ladder(points_):
    global OPENED
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points_:
        res.states += 1
        res.traces += 1
        with core.Scratch() as root:
            stem = lambda i, j: "l%d_%d" % (i, j)  # noqa: E731
            for i in range(p.depth):
                for j in range(p.width):
                    with open(os.path.join(root, stem(i, j) + ".prophy"), "w") as f:
                        below = range(p.width) if i else ()
                        f.write("".join('#include "%s.prophy"\n' % stem(i - 1, k) for k in below))
                        f.write("const K_%d_%d = %s + 1;\n" % (i, j, " + ".join("K_%d_%d" % (i - 1, k) for k in below[:1]) or "0"))
                        f.write("struct S_%d_%d { u8 a[K_%d_%d]; %s };\n" % (i, j, i, j, "S_%d_0 b;" % (i - 1) if i else ""))
            package = files.Package(root)
            OPENED = []
            top = stem(p.depth - 1, 0)
            outcome = frontend.call(["--python_out", package.path, "--cpp_out", package.path, "--cpp_full_out", package.path, top + ".prophy"], root)
            opened, OPENED = OPENED, None
            res.transitions += 1
            problem = None
            if outcome.kind != "ok":
                problem = str(outcome)
            elif len(opened) != len(set(opened)):
                problem = "a file is read more than once"
            else:
                size = [n for n in outcome.nodes[top] if type(n).__name__ == "Struct"][0].byte_size
                if size != p.depth * (p.depth + 1) // 2:
                    problem = "size %d" % size
            package.close()
            if problem:
                res.violation("ladder", "%s: %s" % (p.name, problem), case=p.name)
            else:
                res.outcomes["ladder"] += 1
    undo()
    return res


# --- the same name in two files

NAMED = ["const X = 1;", "enum X { X_a = 1 };", "enum Q { Q_a = 0, X = 3 };", "typedef u8 X;", "struct X { u8 a; };", "struct X { u8 a<>; };", "union X { 1: u8 a; };"]
SHAPES = {
    "included": ["@0", '#include "f0.prophy"\n@1'],
    "included after": ["@0", '@1\n#include "f0.prophy"'],
    "siblings": ["@0", "@1", '#include "f0.prophy"\n#include "f1.prophy"\nstruct User { u8 z; };'],
    "grandparent": ["@0", '#include "f0.prophy"\nstruct Mid { u8 z; };', '#include "f1.prophy"\n@1'],
    "cousins": ["@0", '#include "f0.prophy"\nstruct Mid { u8 z; };', "@1", '#include "f1.prophy"\n#include "f2.prophy"\nstruct User { u8 z; };'],
    "apart": ["@0", "@1"],
}


class Clash(object):
    def __init__(self, shape, a, b):
        self.shape, self.a, self.b = shape, a, b
        self.name = "clash %s: %s / %s" % (shape, a, b)


def clash_points():
    for shape in SHAPES:
        for a in NAMED:
            for b in NAMED:
                yield Clash(shape, a, b)


def clash(points_):
    """Names that collide in the single file: refused, or the outputs work next to each other."""
    res = core.Result()
    undo = frontend.pool_parsers()
    for p in points_:
        res.states += 1
        res.traces += 1
        with core.Scratch() as root:
            package = files.Package(root)
            inputs = []
            for k, t in enumerate(SHAPES[p.shape]):
                inputs.append("f%d.prophy" % k)
                b = p.b.replace("Q", "P").replace("X_a", "X_b")
                with open(os.path.join(root, inputs[-1]), "w") as f:
                    f.write(t.replace("@0", p.a).replace("@1", b) + "\n")
            outcome = frontend.call(["--python_out", package.path, "--cpp_out", package.path, "--cpp_full_out", package.path] + inputs, root)
            res.transitions += 1
            problem = None
            if outcome.kind == "error":
                if p.shape == "apart":
                    problem = "files that do not know each other are refused: %s" % outcome
                res.outcomes["clash %s: refused" % p.shape] += 1
            elif outcome.kind != "ok":
                problem = str(outcome)
            else:
                res.outcomes["clash %s: accepted" % p.shape] += 1
                try:
                    for k in range(len(inputs)):
                        package.load("f%d" % k)
                        for ext in ("ppf", "pp") if p.shape != "apart" else ():
                            cppside.compiler(cppside.FLAGS + ["-fsyntax-only", "-I" + cppside.INCLUDE, "f%d.%s.cpp" % (k, ext)], package.path)
                except cppside.BuildError as e:
                    problem = "accepted, but the C++ does not compile: %s" % str(e)[:300]
                except Exception as e:
                    problem = "accepted, but the Python does not import: %s: %s" % (type(e).__name__, e)
            package.close()
            if problem:
                res.violation("clash " + p.shape, "%s\n%s" % (p.name, problem), case=p.name)
    undo()
    return res


def dispatch(arg):
    kind, points_ = arg
    return {"same": equivalence, "cpp": cpp_group, "broken": broken, "invalid": invalid, "clash": clash, "ladder": ladder}[kind](points_)


def check(ctx):
    global DRIVER
    sys.addaudithook(_audit)
    plan = []
    with core.Scratch() as d:
        DRIVER = cppside.prepare(d, san=[])
        cpp = [p for p in cpp_points(ctx.thorough) if not ctx.only or ctx.only == "cpp " + p.name]
        plan += [("cpp", [p]) for p in cpp]
        same = ctx.pick(points(ctx.thorough))
        groups = {}
        for p in same:
            groups.setdefault(p.split.name, []).append(p)
        for g in groups.values():
            plan += [("same", x) for x in core.chunks(g, 120)]
        plan += [("broken", g) for g in core.chunks(ctx.pick(broken_points(ctx.thorough)), 150)]
        plan += [("invalid", g) for g in core.chunks(ctx.pick(invalid_points(ctx.thorough)), 150)]
        plan += [("clash", g) for g in core.chunks(ctx.pick(clash_points()), 12)]
        plan += [("ladder", [p]) for p in ctx.pick(ladder_points())]
        res = core.parallel(dispatch, plan, ctx.seed)
    res.extra["partitions"] = len(groups)
    res.extra["arrangements"] = len(same)
    res.extra["C++ builds"] = len(cpp)
    return res


def main():
    return core.run("C16", check, assumptions=[
        "bounded: five schemas of six declarations each, all their partitions into files",
        "files of one schema have different base names, since the outputs are named by them"])
