"""C10: every history of API operations on a Python message agrees with a plain reference model."""
import copy

from .. import core, history, pyside, ref, schemas, space
from ..history import Reject
from ..pyside import hexs
from ..ref import BYTES, Enum, Struct, Union

LIB = space.library()
GROWN = 5


def shape_ok(t, v):
    """False for states whose arrays have grown beyond what is explored further."""
    t = t.base()
    if isinstance(t, Union):
        return shape_ok(t.arm(v[0])[1], v[1])
    if not isinstance(t, Struct):
        return True
    for m in t.members:
        if m.name in t.sizers or v[m.name] is None:
            continue
        x = v[m.name]
        if m.is_array:
            if len(x) > GROWN:
                return False
            if m.type is not BYTES and m.type.base().is_composite and not all(shape_ok(m.type, el) for el in x):
                return False
        elif not shape_ok(m.type, x):
            return False
    return True


def observe(module, t, msg, v):
    """None, or how the observable state of the message differs from the reference state v."""
    got = pyside.get_value(msg, t)
    if not pyside.strict_eq(got, v):
        return "state is %r, expected %r" % (got, v)
    why = surface(module, t, msg, v)
    if why:
        return why
    text = str(msg)
    if text != ref.text(t, v):
        return "prints %r, expected %r" % (text, ref.text(t, v))
    for e in "<>":
        try:
            want = ref.encode(t, v, e)
        except ref.UnequalLengths:
            want = None
        try:
            data = msg.encode(e)
        except Exception as ex:
            if want is None and type(ex).__name__ == "ProphyError":
                continue
            return "cannot be encoded: %s: %s (state %r)" % (type(ex).__name__, ex, v)
        if want is None:
            return "encoded with unequal lengths of arrays that share a sizer: %s" % hexs(data)
        if data != want:
            return "encodes as %s, expected %s" % (hexs(data), hexs(want))
    return None


def enumerated(t, x, v):
    """An enumerator tells its name and its number."""
    t = t.base()
    if isinstance(t, Enum) and (x.number != v or (v, x.name) not in [(value, name) for name, value in t.members]):
        return "the enumerator %s = %d tells %r = %r" % (t.name_of(v), v, x.name, x.number)
    return None


def surface(module, t, msg, v):
    """Lengths, indexing, counters and the arms that are not discriminated."""
    t = t.base()
    if isinstance(t, Union):
        d, at, arm = t.arm(v[0])
        if msg.discriminator != d:
            return "discriminator reads %r" % (msg.discriminator,)
        for _, other, name in t.arms:
            if name != arm:
                try:
                    getattr(msg, name)
                except Exception as e:
                    if type(e).__name__ != "ProphyError":
                        return "reading the arm %s raised %s" % (name, type(e).__name__)
                else:
                    return "the arm %s can be read though %s is discriminated" % (name, arm)
        if at.base().is_composite:
            return surface(module, at, getattr(msg, arm), v[1])
        return enumerated(at, getattr(msg, arm), v[1])
    for m in t.members:
        if m.kind in ("dyn", "lim") or m.name in t.sizers:
            name = m.name if m.name in t.sizers else m.counter_name
            if hasattr(msg, name):
                return "the counter %s can be read" % name
            if m.name in t.sizers:
                continue
        x = getattr(msg, m.name)
        if m.is_array and m.type is not BYTES:
            n = len(v[m.name])
            if len(x) != n:
                return "len(%s) is %d" % (m.name, len(x))
            if n and not m.type.base().is_composite and (x[-1] != v[m.name][-1] or x[:] != v[m.name]):
                return "%s reads differently by index and by iteration" % m.name
            if m.type.base().is_composite:
                for el, ev in zip(x, v[m.name]):
                    why = surface(module, m.type, el, ev)
                    if why:
                        return why
            elif not x == v[m.name] or x != v[m.name]:
                return "%s does not compare equal to its elements" % m.name
            elif v[m.name] and (x == v[m.name][:-1] or not x != v[m.name] + v[m.name][:1]):
                return "%s compares equal to other elements" % m.name
            else:
                for el, ev in zip(x, v[m.name]):
                    why = enumerated(m.type, el, ev)
                    if why:
                        return why
        elif m.type is not BYTES and m.type.base().is_composite and x is not None:
            why = surface(module, m.type, x, v[m.name])
            if why:
                return why
        elif m.type is not BYTES and x is not None:
            why = enumerated(m.type, x, v[m.name])
            if why:
                return why
    return None


def handles(t, msg, v, out):
    """References into the message that must stay good: arrays and structs that are always there."""
    t = t.base()
    if not isinstance(t, Struct):
        return out
    for m in t.members:
        if m.name in t.sizers or m.type is BYTES:
            continue
        if m.is_array:
            out.append((m, getattr(msg, m.name), (m.name,)))
        elif m.kind == "plain" and m.type.base().is_composite:
            sub = getattr(msg, m.name)
            out.append((m, sub, (m.name,)))
            out += [(mm, h, (m.name,) + p) for mm, h, p in handles(m.type, sub, v[m.name], [])]
    return out


def stale(t, v, held):
    for m, h, path in held:
        x = v
        for name in path:
            x = x[name]
        got = [pyside._get(el, m.type) for el in h] if m.is_array else pyside.get_value(h, m.type)
        if not pyside.strict_eq(got, x):
            return "a reference to %s taken before reads %r, expected %r" % (".".join(path), got, x)
    return None


def work(task):
    if isinstance(task, str):
        return boundary(task)
    cases, depth, cap = task
    res = core.Result()
    for part, module in schemas.build_python(res, LIB, cases):
        for c in part:
            try:
                with core.Watchdog(240):
                    explore(res, module, c, depth, cap)
            except core.Hang:
                res.violation("hang:" + c.text, "an operation never returned", case=c.name, schema=c.text)
    return res


def replay(module, t, cls, states, ops):
    msg = cls()
    for v, op in zip(states, ops):
        try:
            history.perform(module, t, v, msg, op)
        except Exception:
            pass  # a rejected operation, judged when it was the last one
    return msg


def explore(res, module, c, depth, cap):
    t, cls = c.top, getattr(module, c.top.name)
    start = history.default(t)
    frontier = [([], [start])]
    seen = set([snap(cls())])
    bad = 0
    witness = cls()
    idle = {e: encoded(witness, e) for e in "<>"}
    for level in range(depth):
        following = []
        for ops, states in frontier:
            v = states[-1]
            for op in history.operations(t, v):
                res.transitions += 1
                problem, after, key, kind = transition(module, t, cls, ops, states, op)
                res.traces += 1
                if not problem and {e: encoded(cls(), e) for e in "<>"} != idle:
                    problem = "a newly created message is affected"
                if problem:
                    bad += 1
                    text = " ; ".join(map(history.show, ops + [op]))
                    res.violation("%s:%s" % (op[1], c.text), "%s: %s" % (text, problem), case=c.name, schema=c.text,
                                  operations=[repr(o) for o in ops + [op]])
                    if bad > 3:
                        return
                    continue
                res.outcomes["%s %s" % (op[1], kind)] += 1
                if key not in seen and shape_ok(t, after):
                    seen.add(key)
                    following.append((ops + [op], states + [after]))
                    if len(seen) % 4000 == 1:
                        res.sample("%s | %s -> %r" % (c.text, " ; ".join(map(history.show, ops + [op])), after))
        if len(following) > cap:
            res.extra["states not expanded (cap)"] += len(following) - cap
            following = following[:cap]
        frontier = following
    res.states += len(seen)
    if {e: encoded(witness, e) for e in "<>"} != idle:
        res.violation("witness:" + c.text, "a message that was never touched has changed", case=c.name, schema=c.text)


def boundary(token):
    """Arrays filled up to what their 16-bit sizer can count, and one more, by every way of adding."""
    res = core.Result()
    for part, module in schemas.build_python(res, LIB, [space.seq_case(LIB, "B0", [token])]):
        for c in part:
            t, cls = c.top, getattr(module, c.top.name)
            m = t.members[1]
            most = history.limit(t, m)
            path = (("a", m.name),)
            one = history.samples(m.type)[0] if m.type.base().is_composite else history.goods(m.type)[0]
            ways = [("add", ())] if m.type.base().is_composite else [
                ("append", (one,)), ("insert", (0, one)), ("slice", ((0, 0, None), "list", (one,)))]
            fill = (path, "extend", ("list", (one,) * (most - 1)))
            start = history.default(t)
            full = history.step(t, start, fill)
            for name, args in ways + [("extend", ("list", (one,))), ("extend", ("iter", (one,)))]:
                op = (path, name, args)
                last = history.step(t, full, op)
                for ops, states in (([fill], [start, full]), ([fill, op], [start, full, last])):
                    res.transitions += 1
                    res.traces += 1
                    problem, after, _, kind = transition(module, t, cls, ops, states, op)
                    if problem:
                        res.violation("%s:%s" % (name, c.text), "%s to %d elements: %s" % (
                            name, len(states[-1][m.name]), problem[:300]), case=c.name, schema=c.text)
                    else:
                        res.outcomes["%s %s at the limit" % (name, kind)] += 1
    return res


def encoded(msg, e):
    try:
        return msg.encode(e)
    except Exception as ex:
        return type(ex).__name__


def snap(msg):
    return history.snapshot(msg)


def transition(module, t, cls, ops, states, op):
    """(problem, state after, key of the state, 'ok' or the rejection)"""
    v = states[-1]
    try:
        after, kinds = history.step(t, v, op), None
    except Reject as e:
        after, kinds = v, e.kinds
    msg = replay(module, t, cls, states, ops)
    held = None
    if len(ops) % 2:  # half of the histories leave the fields uncreated until the operation itself
        held = handles(t, msg, v, [])
    try:
        history.perform(module, t, v, msg, op)
        got = None
    except Exception as e:
        got = e
    key = snap(msg)
    if kinds is None and got is not None:
        return "rejected with %s: %s" % (type(got).__name__, got), after, key, None
    if kinds is not None and got is None:
        return "accepted, expected %s; state %r" % ("/".join(kinds), pyside.get_value(msg, t)), after, key, None
    if kinds is not None and type(got).__name__ not in kinds:
        return "raised %s: %s; expected %s" % (type(got).__name__, got, "/".join(kinds)), after, key, None
    try:
        problem = observe(module, t, msg, after)
        if not problem and held:
            problem = stale(t, after, held)
    except Exception as e:
        problem = "reading the state raised %s: %s" % (type(e).__name__, e)
    if problem and kinds is not None:
        problem = "after the rejection the " + problem
    return problem, after, key, "ok" if kinds is None else type(got).__name__


def check(ctx):
    deep = "u8 E float u8* E* F2b* U4 u8[3] u8<3> u8<> E<2> float<> u16<@u8> F1<2> F1<> U4<2> bytes<5> bytes<> FL".split()
    singles = list(space.singles(LIB))
    tasks = []
    level = 3 if ctx.thorough else 2
    cap = 400 if ctx.thorough else 40
    for c in ctx.pick(singles):
        tasks.append(([c], 4 if c.text in deep and ctx.thorough else 3 if c.text in deep else level, cap))
    pairs = [c for c in space.core_pairs(LIB)]
    for part in core.chunks(ctx.pick(pairs), 12):
        tasks.append((part, 2, 7 if not ctx.thorough else 100))
    for part in core.chunks(ctx.pick(space.wrapped_singles(LIB)), 24):
        tasks.append((part, 2, 4 if not ctx.thorough else 60))
    for part in core.chunks(ctx.pick(space.patched_cases(LIB))[::1 if ctx.thorough else 7], 12):
        tasks.append((part, 2, 6 if not ctx.thorough else 60))
    for part in core.chunks(ctx.pick(c for c in space.shared_sizer_cases(LIB))[::1 if ctx.thorough else 6], 12):
        tasks.append((part, 2, 6 if not ctx.thorough else 60))
    if not ctx.only:
        tasks = ["u8<@u16>", "E<@i16>", "F1<@u16>"] + tasks
    return core.parallel(work, tasks, ctx.seed)


def main():
    return core.run("C10", check, assumptions=[
        "bounded: histories of 2 to 4 operations from the alphabet of mc/history.py, states told apart by everything "
        "the objects remember", "an index or key of a wrong type is not an operation"])
