"""C20: prophyc output is a deterministic function of its inputs."""
import itertools
import json
import os
import shutil
import subprocess
import sys

from .. import core, files, frontend, isarside, pyside, ref, schemas, space
from ..isarside import Style

RUNNER = os.path.join(os.path.dirname(os.path.abspath(frontend.__file__)), "runner.py")
OUTPUTS = ("python", "cpp_full", "cpp", "prophy")
SCHEMAS = list(files.schemas())
ROOT = None         # scratch directory of the run
BASE = {}           # (project, stem) -> {file name: bytes}, every file compiled alone
PROJECTS = {}


# --------------------------------------------------------------------------
# what gets compiled

class Project(object):
    """Files below a directory. inputs: paths of the ones to compile; flags: arguments with {root}."""

    def __init__(self, name, contents, inputs, flags=()):
        self.name, self.contents, self.inputs, self.flags = name, contents, inputs, list(flags)
        self.directory = "p%03d" % len(PROJECTS)
        PROJECTS[name] = self

    def write(self, root):
        for path, text in self.contents.items():
            full = os.path.join(root, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w", encoding="utf-8") as f:
                f.write(text)

    @property
    def home(self):
        return os.path.join(ROOT, self.directory)

    def stem(self, k):
        return os.path.splitext(os.path.basename(self.inputs[k]))[0]


def split_project(split, kind, style="plain"):
    layout = files.Layout(split, kind)
    n = len(split.files)
    contents = dict((layout.paths[k], files.includes(split, layout, k, style)) for k in range(n))
    contents.update((p, "const DECOY = 1;\n") for p in layout.decoys)
    flags = [x for d in layout.dirs for x in ("-I", "{root}/" + d)]
    return Project("%s %s %s" % (split.name, kind, style), contents, layout.paths, flags)


def isar_project(split):
    contents, rules = {}, ""
    for k, stem in enumerate(split.stems):
        xml, more = isarside.document(split.objects(k), Style(0), [])
        includes = "".join('<xi:include href="%s.xml"/>' % split.stems[j] for j in split.needs[k])
        contents[stem + ".xml"] = xml.replace("<xml>", '<xml xmlns:xi="http://www.w3.org/2001/XInclude">' + includes, 1)
        rules += more
    contents["rules.patch"] = rules.strip() + "\n"
    return Project("isar " + split.name, contents, [s + ".xml" for s in split.stems], ["--isar", "--patch", "{root}/rules.patch"])


SACK = {
    "one.hpp": "#include <stdint.h>\nenum Kind { Kind_A = 1, Kind_B = 5 };\ntypedef uint16_t Short;\n"
               "struct One { Kind k; Short s[3]; uint64_t n; };\n",
    "two.hpp": '#include "one.hpp"\nunion Choice { One one; Short s; uint8_t b; };\nstruct Two { Choice c; One o[2]; };\n',
    "three.hpp": '#include "one.hpp"\nnamespace ns { struct Inner { uint32_t x; }; }\n'
                 "struct Three { One o; ns::Inner i; uint32_t num_of_x; uint8_t x[1]; };\n",
    "rules.patch": "Three dynamic x num_of_x\n"}


def sack_available():
    import prophyc
    from prophyc.parsers.sack import SackParser
    return bool(SackParser.check())


def make_projects(thorough):
    """All splits of the base schemas in turn over the layouts, isar ones, sack ones, large and documented files."""
    k = 0
    for schema in SCHEMAS:
        for split in files.splits(schema):
            if len(split.files) > 1:
                k += 1
                if thorough or k % 2:
                    m = k // 2
                    split_project(split, files.LAYOUTS[m % len(files.LAYOUTS)], files.INCLUDES[m % len(files.INCLUDES)])
    for schema in SCHEMAS:
        for n, split in enumerate(s for s in files.splits(schema) if len(s.files) in ((2, 3, 4, 5, 6) if thorough else (3, 6))):
            if thorough or n % 2 or len(split.files) == 6:
                isar_project(split)
    lib = space.library()
    text = schemas.group_text(lib, list(space.singles(lib)))
    Project("large", {"large.prophy": text, "user.prophy": '#include "large.prophy"\n' + "".join(
        "struct X%d { %s a; };\n" % (n, d.name) for n, d in enumerate(lib.decls) if not isinstance(d, ref.Const))},
        ["large.prophy", "user.prophy"])
    xml, rules = isarside.document(lib.decls, Style(1))
    Project("large isar", {"large.xml": xml, "rules.patch": rules}, ["large.xml"], ["--isar", "--patch", "{root}/rules.patch"])
    Project("documented", {"doc.prophy": u"/* Zażółć gęślą ∑\U0001F600 */\nstruct A\n{\n    u8 a; // jaźń\n    /* δεύτερο */\n"
                           u"    u16 b;\n};\n// конец\nconst K = 1;\n", "more.prophy": u"#include \"doc.prophy\"\n// ß\nstruct B { A a; };\n"},
            ["doc.prophy", "more.prophy"])
    Project("documented isar", {"doc.xml": u'<xml><struct name="A" comment="Zażółć ∑"><member name="a" type="u8" comment="jaźń"/>'
                                u'</struct></xml>'}, ["doc.xml"], ["--isar"])
    # independent files: nothing included, same names inside
    Project("strangers", {"s%d.prophy" % n: t for n, t in enumerate([
        "const K = 3;\nstruct S { u8 a[K]; };\nenum E { E_1 = 1 };\n", "struct S { u64 a<>; };\nconst K = 7;\ntypedef S T;\n",
        "enum S { S_a = 4, S_b = 2 };\ntypedef u16 K;\nstruct Z { S s; K k; };\n", "typedef i8 S;\nunion K { 1: S s; 2: u32 u; };\n"])},
        ["s%d.prophy" % n for n in range(4)])
    Project("isar strangers", {"s%d.xml" % n: t for n, t in enumerate([
        '<xml><constant name="K" value="3"/><struct name="S"><member name="a" type="u8"><dimension size="K"/></member></struct></xml>',
        '<xml><constant name="K" value="7"/><struct name="S"><member name="a" type="u64"><dimension isVariableSize="true"/></member></struct></xml>',
        '<xml><enum name="S"><m name="K" value="-1"/></enum><struct name="Q"><member name="s" type="S"/></struct></xml>'])},
        ["s%d.xml" % n for n in range(3)], ["--isar"])
    # files of the same name in different directories, never compiled themselves
    Project("namesakes", {
        "x/types.prophy": "const K = 3;\nstruct T { u8 a[K]; };\n", "y/types.prophy": "const K = 5;\nstruct T { u32 a<>; u8 b; };\n",
        "x/one.prophy": '#include "types.prophy"\nconst L = K * 2;\nstruct One { T t; u16 b[L]; };\n',
        "y/two.prophy": '#include "types.prophy"\nconst M = K * 3;\nstruct Two { T t; u16 b[M]; };\n',
        "three.prophy": '#include "x/one.prophy"\nstruct Three { One o; u8 x[L]; };\n',
        "four.prophy": '#include "y/two.prophy"\nstruct Four { Two o; u8 x[M]; };\n',
        "x/types.part": "const K = 9;\ntypedef u64 T;\n", "x/five.prophy": '#include "types.part"\nconst N = K - 1;\nstruct Five { T t[K]; };\n'},
        ["x/one.prophy", "y/two.prophy", "three.prophy", "four.prophy", "x/five.prophy"])
    xml = '<xml xmlns:xi="http://www.w3.org/2001/XInclude">%s</xml>'
    Project("isar namesakes", {
        "x/types.xml": xml % '<constant name="K" value="3"/><typedef name="T" type="u8"/>',
        "y/types.xml": xml % '<constant name="K" value="5"/><typedef name="T" type="u64"/>',
        "x/one.xml": xml % '<xi:include href="types.xml"/><struct name="One"><member name="t" type="T"><dimension size="K"/></member></struct>',
        "y/two.xml": xml % '<xi:include href="types.xml"/><struct name="Two"><member name="t" type="T"><dimension size="K"/></member></struct>'},
        ["x/one.xml", "y/two.xml"], ["--isar"])
    for language, other in (("strangers", []), ("isar strangers", ["--isar"])):
        contents = dict(PROJECTS[language].contents)
        del contents["s2.prophy" if language == "strangers" else "s2.xml"]
        contents.pop("s3.prophy", None)
        contents["rules.patch"] = "S insert 0 first u16\nS type a u32\nS rename Better\nAbsent remove x\n"
        Project("patched " + language, contents, PROJECTS[language].inputs[:2], other + ["--patch", "{root}/rules.patch"])
    if sack_available():
        Project("sack", dict(SACK), ["one.hpp", "two.hpp", "three.hpp"], ["--sack", "--patch", "{root}/rules.patch"])
        isar = '<xml><struct name="Test"><member name="x" type="u32"><dimension isVariableSize="true"/></member></struct></xml>'
        Project("mixed in", {"test.xml": isar, "a.hpp": "#include <stdint.h>\nstruct A { int32_t f; Test t; };\n",
                             "b.hpp": "#include <stdint.h>\nstruct B { Test t; uint8_t z; };\n"}, ["a.hpp", "b.hpp"],
                ["--sack", "--include_isar", "{root}/test.xml"])


# --------------------------------------------------------------------------
# runs

class Run(object):
    """Steps made in one process. The last one compiles the inputs (numbers) of the project."""

    def __init__(self, family, name, project, inputs, cwd=None, spell=None, out=None, home=None, before=(), options="flags first", old=False):
        self.family, self.name, self.project, self.inputs = family, name, project, list(inputs)
        self.cwd, self.spell, self.out, self.home, self.before = cwd, spell, out, home, list(before)
        self.options, self.old = options, old

    def shares(self, other):
        """Whether a process may do the run after the other one."""
        return not self.before and not other.before and self.project is other.project

    def step(self, directory):
        """(cwd, arguments); the outputs go to the directory."""
        p = self.project
        home = self.home or p.home
        cwd = self.cwd or home
        spell = self.spell or (lambda path, cwd_: os.path.relpath(path, cwd_))
        flags = [f.replace("{root}", home) for f in p.flags]
        outs = [x for o in (reversed(OUTPUTS) if self.options == "reversed" else OUTPUTS)
                for x in ("--%s_out" % o, (self.out or (lambda d, c: d))(directory, cwd))]
        names = [spell(os.path.join(home, p.inputs[k]), cwd) for k in self.inputs]
        if self.options == "inputs first":
            return cwd, names + outs + flags
        return cwd, flags + outs + names


def execute(arg):
    """Runs of one environment; compares what they wrote with what the files give when compiled alone."""
    env, runs = arg
    res = core.Result()
    with core.Scratch() as d:
        jobs, placed = [], []
        for n, r in enumerate(runs):
            out = os.path.join(d, "o%d" % n)
            os.makedirs(out)
            if r.old:
                litter(r, out)
            steps = []
            for b in r.before:
                junk = os.path.join(d, "junk")
                os.makedirs(junk, exist_ok=True)
                steps.append(b(junk))
            steps.append(r.step(out))
            if placed and r.shares(runs[n - 1]) and len(jobs[-1]) < 8:
                jobs[-1] += steps
            else:
                jobs.append(steps)
            placed.append((r, out, len(jobs) - 1, len(jobs[-1]), len(steps)))
        replies = call_runner(env, jobs)
        for r, out, where, end, own in placed:
            res.states += 1
            res.traces += 1
            res.transitions += own
            job = jobs[where][:end]
            problem = judge(r, out, replies[where][:end])
            shutil.rmtree(out)
            if problem:
                res.violation("%s:%s" % (r.family, r.project.name), "%s, %s, project %s\n%s\nsteps:\n%s" % (
                    r.family, r.name, r.project.name, problem, "\n".join("in %s: prophyc %s" % (c, " ".join(a)) for c, a in job)),
                    case=r.name, family=r.family, project=r.project.name, contents=r.project.contents)
            else:
                res.outcomes[r.family] += 1
    return res


def litter(run, out):
    """What an earlier, different compilation may have left."""
    for k in run.inputs:
        for name, data in BASE[run.project.name, run.project.stem(k)].items():
            with open(os.path.join(out, name), "wb") as f:
                f.write(data[: len(data) // 2] + b"old\n" * 2000)


def environment(seed="0", **more):
    env = dict((k, v) for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG")))
    env.update(PYTHONHASHSEED=str(seed), LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    env.update(more)
    return env


def call_runner(env, jobs):
    p = subprocess.run([sys.executable, RUNNER, core.REPO], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=600)
    lines = p.stdout.decode().splitlines()
    if p.returncode or len(lines) != len(jobs):
        raise core.CheckError("runner: exit %s, %d of %d replies: %s" % (p.returncode, len(lines), len(jobs), p.stderr.decode()[-500:]))
    return [json.loads(x) for x in lines]


def read_all(directory):
    out = {}
    for dirpath, _, names in os.walk(directory):
        for n in names:
            full = os.path.join(dirpath, n)
            with open(full, "rb") as f:
                out[os.path.relpath(full, directory)] = f.read()
    return out


def judge(run, out, reply):
    if reply[-1] != "ok":
        return "prophyc fails: %s" % reply[-1]
    want = {}
    for k in run.inputs:
        want.update(BASE[run.project.name, run.project.stem(k)])
    got = read_all(out)
    if "mixed in" == run.project.name:
        # the isar files come along with every sack file
        got = dict((n, d) for n, d in got.items() if not n.startswith("test."))
    if set(got) != set(want):
        return "files written: %s instead of %s" % (sorted(got), sorted(want))
    for name in sorted(want):
        if got[name] != want[name]:
            return "%s differs: %s" % (name, difference(want[name], got[name]))


def difference(a, b):
    a, b = a.split(b"\n"), b.split(b"\n")
    for n, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return "line %d is %r, compiled alone %r" % (n + 1, y, x)


# --------------------------------------------------------------------------
# families

def whole(family, name, p, **how):
    return Run(family, name, p, range(len(p.inputs)), **how)


def order_runs(thorough):
    """Every order of up to four inputs, swaps and rotations of more; every subset; repetitions."""
    for p in PROJECTS.values():
        n = len(p.inputs)
        perms = list(itertools.permutations(range(n))) if n <= (5 if thorough else 4) else some_orders(n)
        for q in perms:
            yield Run("order", "inputs %s" % (q,), p, q)
        for size in range(1, n):
            for q in itertools.combinations(range(n), size):
                yield Run("subset", "inputs %s" % (q,), p, q)
        for k in range(n):
            yield Run("twice", "input %d again" % k, p, [k] + [x for x in range(n)] + [k])


def some_orders(n):
    first = tuple(range(n))
    out = [first[k:] + first[:k] for k in range(n)]
    out += [x[::-1] for x in out]
    for a, b in itertools.combinations(range(n), 2):
        q = list(first)
        q[a], q[b] = q[b], q[a]
        out.append(tuple(q))
    return sorted(set(out))


def dotted(path, cwd):
    head, tail = os.path.split(os.path.relpath(path, cwd))
    return "./" + os.path.join(head, ".", tail)


def place_runs():
    """Working directories, spellings of paths, other places for the same files."""
    elsewhere = os.path.join(ROOT, "else", "where")
    full = lambda path, cwd: os.path.abspath(path)
    rel = lambda path, cwd: os.path.relpath(path, cwd)
    for p in PROJECTS.values():
        moved = os.path.join(ROOT, "moved", "a longer name of the directory", p.directory)
        linked = os.path.join(ROOT, "links", p.directory)
        for name, how in (
                ("full paths from elsewhere", dict(cwd=elsewhere, spell=full)), ("relative paths from elsewhere", dict(cwd=elsewhere)),
                ("full paths from home", dict(spell=full)), ("dots in paths", dict(spell=dotted)),
                ("from the root of the run", dict(cwd=ROOT)), ("from the file system root", dict(cwd="/")),
                ("in the directory of the last input", dict(cwd=os.path.dirname(os.path.join(p.home, p.inputs[-1])))),
                ("relative output directory", dict(out=rel)), ("output directory with a slash", dict(out=lambda d, c: d + "/")),
                ("moved", dict(home=moved)), ("moved, from elsewhere", dict(home=moved, cwd=elsewhere, spell=full)),
                ("through a link", dict(home=linked)), ("options after inputs", dict(options="inputs first")),
                ("outputs in another order", dict(options="reversed")), ("over old outputs", dict(old=True))):
            yield whole("place", name, p, **how)


def failures():
    """Compilations of other things, most of which fail. Each is a function of an output directory."""
    texts = {
        "syntax.prophy": "struct A { u8 a; };\nstruct B { u8 ", "lexer.prophy": "struct S { u8 a; };\n$$$\n", "twice.prophy":
        "const K = 9;\nstruct S { u8 a; u8 a; };\n", "value.prophy": "const K = 1 / 0;\n", "unclosed.prophy": "/* const K = 4;",
        "missing.prophy": '#include "fa.prophy.not"\nconst K = 5;\n', "cycle.prophy": '#include "cycle.prophy"\n', "calc.prophy":
        "const K = 3;\nstruct S { u8 a[(K]; };\n", "good.prophy": "const K = 11;\nenum E { E_a = 77 };\nstruct F { u64 q<>; };\n"
        "typedef F T;\nstruct S { T t; };\n", "fa.prophy": "const K = 8;\nstruct Alien { u8 a[K]; };\n", "bad.xml": "<xml><struct",
        "size.xml": '<xml><struct name="S"><member name="a" type="u8"><dimension size="K+"/></member></struct></xml>',
        "good.xml": '<xml><constant name="K" value="shiftLeft(1,3)"/><struct name="S"><member name="a" type="u8"><dimension size="K"/>'
        '</member></struct></xml>', "bad.patch": "S remove nothing\n", "deep.prophy": "const K = %s1%s;\n" % ("(" * 80, ")" * 80)}
    home = os.path.join(ROOT, "others")
    os.makedirs(home, exist_ok=True)
    for n, t in texts.items():
        with open(os.path.join(home, n), "w") as f:
            f.write(t)

    def step(*args):
        return lambda junk: (home, [a.replace("{out}", junk) for a in args])
    out = ["--python_out", "{out}", "--cpp_full_out", "{out}"]
    return dict(
        [(n, step(*(["--isar"] if n.endswith(".xml") else []) + out + [n])) for n in sorted(texts) if not n.endswith(".patch")] +
        [("version", step("--version")), ("option", step("--nonsense")), ("absent", step(*out + ["absent.prophy"])),
         ("patch", step(*["--patch", "bad.patch"] + out + ["good.prophy"])), ("several", step(*out + ["good.prophy", "fa.prophy", "syntax.prophy"])),
         ("directory", step("--python_out", "{out}/absent", "good.prophy"))])


def history_runs(thorough):
    """What the same process compiled before."""
    others = failures()
    ends = [p for n, p in sorted(PROJECTS.items()) if n in ("large isar", "documented", "strangers", "sack")]
    for prefix in ("mixed ", "numbers ", "isar mixed ", "isar tails "):
        ends += [p for n, p in sorted(PROJECTS.items()) if n.startswith(prefix) and len(p.inputs) > 2][:1]
    for p in ends:
        for length in (0, 1, 2, 3) if thorough else (0, 1, 2):
            if length > 1 and p.name in ("large isar", "sack") or length > (2 if p in ends[::2] else 1) and not thorough:
                continue
            for names in itertools.product(sorted(others), repeat=length):
                yield whole("history", " then ".join(names), p, before=[others[n] for n in names])
    # the project itself before, in part and in other orders
    for p in PROJECTS.values():
        n = len(p.inputs)
        for q in list(itertools.permutations(range(n), min(n, 2)))[:12 if thorough else 6]:
            earlier = Run("history", "", p, q)
            yield whole("again", "after inputs %s" % (q,), p, before=[earlier.step, earlier.step])


def seeds(most):
    """Hash seeds under which sets of three names get iterated in all orders they can."""
    groups = [[d.obj.name for d in s.decls][k:k + 3] for s in SCHEMAS for k in (0, 3)] + [["fa", "fb", "fc"], ["fd", "fe", "ff"]]
    program = "import sys, json; print(json.dumps([list(set(g)) for g in json.loads(sys.argv[1])]))"
    orders = {}
    for seed in range(1, 65):
        text = subprocess.check_output([sys.executable, "-S", "-c", program, json.dumps(groups)], env=environment(seed))
        orders[seed] = set((n, tuple(o)) for n, o in enumerate(json.loads(text.decode())))
    chosen, seen = [], set()
    while len(chosen) < most:
        best = max(orders, key=lambda s: (len(orders[s] - seen), -s))
        if not orders[best] - seen:
            break
        chosen.append(best)
        seen |= orders[best]
    return chosen, len(seen), len(set().union(*orders.values()))


def environments(thorough):
    chosen, seen, total = seeds(24 if thorough else 12)
    out = [("hash seed %s" % s, environment(s)) for s in chosen]
    out.append(("random hash seed", environment("random")))
    out.append(("ASCII locale", environment(5, LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")))
    out.append(("another day", environment(6, VERIF_ANOTHER_DAY=str(400 * 86400 + 40000), TZ="Asia/Kathmandu", USER="somebody", HOME="/nonexistent",
                                            LOGNAME="somebody", HOSTNAME="elsewhere", COLUMNS="40")))
    out.append(("optimized", environment(7, PYTHONOPTIMIZE="1")))
    return out, seen, total


def dispatch(arg):
    return execute(arg)


def check(ctx):
    global ROOT
    with core.Scratch() as d:
        ROOT = d
        PROJECTS.clear()
        make_projects(ctx.thorough)
        os.makedirs(os.path.join(d, "else", "where"))
        os.makedirs(os.path.join(d, "links"))
        for p in PROJECTS.values():
            p.write(p.home)
            moved = os.path.join(d, "moved", "a longer name of the directory", p.directory)
            p.write(moved)
            os.symlink(moved, os.path.join(d, "links", p.directory))
        res = baseline(ctx)
        if len(BASE) < len(PROJECTS) // 2:
            raise core.CheckError("only %d files of %d projects are compiled" % (len(BASE), len(PROJECTS)))
        for p in list(PROJECTS.values()):
            if any((p.name, p.stem(k)) not in BASE for k in range(len(p.inputs))):
                del PROJECTS[p.name]
        env = environment()
        runs = list(order_runs(ctx.thorough)) + list(place_runs()) + list(history_runs(ctx.thorough))
        tasks = [(env, c) for c in core.chunks(ctx.pick(runs), 120)]
        several, seen, total = environments(ctx.thorough)
        for name, e in several:
            ps = list(PROJECTS.values())
            tasks += [(e, [whole("environment", name, p) for p in c]) for c in core.chunks(ps, 80)]
        res = core.parallel(dispatch, tasks, ctx.seed)
        res.extra["projects"] = len(PROJECTS)
        res.extra["files compiled alone"] = len(BASE)
        res.extra["environments"] = len(several)
        res.extra["set orders realised"] = seen
        res.extra["set orders of 64 seeds"] = total
        return res


def compile_alone(runs):
    res = core.Result()
    res.base = {}
    with core.Scratch() as d:
        jobs = []
        for n, r in enumerate(runs):
            os.makedirs(os.path.join(d, "o%d" % n))
            jobs.append([r.step(os.path.join(d, "o%d" % n))])
        for n, (r, reply) in enumerate(zip(runs, call_runner(environment(), jobs))):
            if reply[-1] != "ok":
                continue    # not a question of this property
            got = read_all(os.path.join(d, "o%d" % n))
            res.samples.append(((r.project.name, r.project.stem(r.inputs[0])), got))
    return res


def baseline(ctx):
    BASE.clear()
    runs = [Run("alone", "", p, [k]) for p in PROJECTS.values() for k in range(len(p.inputs))]
    res = core.parallel(compile_alone, core.chunks(runs, 40), ctx.seed)
    for key, got in res.samples:
        if key[0] == "mixed in":
            got = dict((n, x) for n, x in got.items() if not n.startswith("test."))
        BASE[key] = got
    res.samples = []
    return res


def main():
    return core.run("C20", check, assumptions=ASSUMPTIONS)


ASSUMPTIONS = [
    "bounded: the splits of five base schemas, isar, sack and patch projects; up to six inputs; histories of up to two earlier compilations (three thorough)",
    "hash seeds stand for the orders of sets: the ones chosen realise all orders of the tracked sets of three names that 64 seeds realise",
    "inputs of one run have different base names, since the outputs are named after them"]
