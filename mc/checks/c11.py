"""C11: copy_from makes an equal and independent message."""
import copy

from .. import core, history, pyside, ref, schemas, space
from ..history import Reject
from ..ref import BYTES, Struct, Union
from . import c10

LIB = space.library()


def fresh(module, t, v):
    """A message holding v; None stands for one that was never touched."""
    msg = getattr(module, t.name)()
    if v is not None:
        pyside.set_value(msg, t, v)
    return msg


def state(t, v):
    return history.default(t) if v is None else v


def work(task):
    cases, mutations = task
    res = core.Result()
    for part, module in schemas.build_python(res, LIB, cases):
        for c in part:
            try:
                with core.Watchdog(240):
                    explore(res, module, c, mutations)
            except core.Hang:
                res.violation("hang:" + c.text, "an operation never returned", case=c.name, schema=c.text)
    return res


def explore(res, module, c, mutations):
    t = c.top
    vals = [None] + [history.thaw(t, v) for v in space.values(t)]
    if len(vals) > 14:
        vals = vals[:7] + vals[-7:]
    bad = 0
    for i, va in enumerate(vals):
        for j, vb in enumerate(vals):
            if len(vals) > 8 and (i * 3 + j) % 3:
                continue
            res.states += 1
            problem = pair(res, module, t, va, vb)
            if problem:
                bad += 1
                res.violation("copy:%s" % c.text, "%r copied over %r: %s" % (va, vb, problem), case=c.name,
                              schema=c.text, source=repr(va), target=repr(vb))
                if bad > 2:
                    return
    for i, va in enumerate(vals[:mutations] + vals[-1:]):
        vb = vals[(i * 5 + 3) % len(vals)]
        for op in history.operations(t, state(t, va), rich=False):
            for side in ("source", "copy"):
                res.states += 1
                problem = independent(res, module, t, va, vb, op, side)
                if problem:
                    bad += 1
                    res.violation("alias:%s" % c.text, "%r copied over %r, then %s on the %s: %s" % (
                        va, vb, history.show(op), side, problem), case=c.name, schema=c.text, source=repr(va),
                        target=repr(vb), operation=repr(op))
                    if bad > 2:
                        return


def compared(t, a, va, b, vb):
    """Arrays of two messages compare as their elements do."""
    t = t.base()
    for m in t.members if isinstance(t, Struct) else ():
        if m.is_array and m.type is not BYTES and not m.type.base().is_composite and not m.type.base().is_float:
            x, y, same = getattr(a, m.name), getattr(b, m.name), va[m.name] == vb[m.name]
            if (x == y) is not same or (x != y) is same or not x == x:
                return "%r and %r of two messages compare %s" % (va[m.name], vb[m.name], x == y)
    return None


def pair(res, module, t, va, vb):
    """Equality after a copy; then the copy of the copy, the copy back, and a copy onto itself."""
    try:
        a, b = fresh(module, t, va), fresh(module, t, vb)
        b.copy_from(a)
        res.transitions += 1
        res.traces += 1
        v = state(t, va)
        why = c10.observe(module, t, b, v) or again("the source", c10.observe(module, t, a, v)) or compared(t, a, v, b, v)
        if why:
            return why
        b.copy_from(b)
        res.transitions += 1
        why = again("after a copy onto itself", c10.observe(module, t, b, v))
        if why:
            return why
        d = fresh(module, t, None)
        d.copy_from(b)
        a.copy_from(fresh(module, t, vb))
        res.transitions += 2
        w = state(t, vb)
        why = again("overwritten source", c10.observe(module, t, a, w)) or \
            again("first copy", c10.observe(module, t, b, v)) or again("copy of the copy", c10.observe(module, t, d, v))
        if why:
            return why
        # a message of another type is refused and nothing changes
        other = module.F1() if t.name != "F1" else module.F3()
        try:
            b.copy_from(other)
        except Exception as e:
            if type(e).__name__ not in ("TypeError", "ProphyError"):
                return "copy from another type raised %s" % type(e).__name__
        else:
            return "copy from another type was accepted"
        why = again("after a refused copy", c10.observe(module, t, b, v))
        res.outcomes["equal" if pyside.strict_eq(v, w) else "replaced"] += 1
        return why
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def again(what, why):
    return why and "%s: %s" % (what, why)


def independent(res, module, t, va, vb, op, side):
    res.transitions += 2
    res.traces += 1
    v = state(t, va)
    try:
        a, b = fresh(module, t, va), fresh(module, t, vb)
        b.copy_from(a)
        changed, other = (a, b) if side == "source" else (b, a)
        try:
            after = history.step(t, v, op)
        except Reject:
            after = v
        try:
            history.perform(module, t, v, changed, op)
        except Exception:
            if after is not v:
                raise
        res.outcomes["mutated" if after != v else "not changed"] += 1
        return again("the other message", c10.observe(module, t, other, v)) or \
            again("the mutated message", c10.observe(module, t, changed, after)) or compared(t, other, v, changed, after)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def extend_work(cases):
    """extend(): elements are copies, whatever is done to the source or to the copy afterwards."""
    res = core.Result()
    for part, module in schemas.build_python(res, LIB, cases):
        for c in part:
            with core.Watchdog(240):
                explore_extend(res, module, c)
    return res


def explore_extend(res, module, c):
    t = c.top
    m = [m for m in t.members if m.is_array][-1]
    et = m.type.base()
    vals = [history.thaw(et, v) for v in space.values(et)]
    bad = 0
    for i, ve in enumerate(vals[:4] + vals[-4:]):
        for op in history.operations(et, ve, rich=False):
            for side, by in (("source", "list"), ("copy", "list"), ("source", "array"), ("copy", "array"),
                             ("source", "twice"), ("copy", "twice")):
                res.states += 1
                res.transitions += 2
                res.traces += 1
                problem = extended(res, module, t, m, et, ve, op, side, by)
                if problem:
                    bad += 1
                    res.violation("extend:%s" % c.text, "%r added by extend(%s), then %s on the %s: %s" % (
                        ve, by, history.show(op), side, problem), case=c.name, schema=c.text)
                    if bad > 2:
                        return


def extended(res, module, t, m, et, ve, op, side, by):
    try:
        msg = fresh(module, t, None)
        arr = getattr(msg, m.name)
        try:
            after = history.step(et, ve, op)
        except Reject:
            after = ve
        if by == "array":
            other = fresh(module, t, None)
            source = getattr(other, m.name).add()
            pyside.set_value(source, et, ve)
            arr.extend(getattr(other, m.name))
            want = [ve]
        else:
            source = fresh(module, et, ve)
            arr.extend([source] * (2 if by == "twice" else 1))
            want = [ve] * (2 if by == "twice" else 1)
        target = source if side == "source" else arr[0]
        try:
            history.perform(module, et, ve, target, op)
        except Exception:
            if after is not ve:
                raise
        want = want if side == "source" else [after] + want[1:]
        v = history.default(t)
        v[m.name] = want
        res.outcomes["extend %s %s" % (by, side)] += 1
        return c10.observe(module, t, msg, v) or \
            again("the source", c10.observe(module, et, source, after if side == "source" else ve))
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def optional_work(cases):
    """Between the value of an optional field, an array element and a message of the same type."""
    res = core.Result()
    for part, module in schemas.build_python(res, LIB, cases):
        for c in part:
            et = c.top.members[0].type.base()
            for ve in space.values(et):
                for back in (False, True):
                    res.states += 1
                    res.transitions += 1
                    res.traces += 1
                    try:
                        holder, plain = fresh(module, c.top, None), fresh(module, et, None)
                        holder.f0 = True
                        source, target = (plain, holder.f0) if back else (holder.f0, plain)
                        pyside.set_value(source, et, ve)
                        target.copy_from(source)
                        why = c10.observe(module, et, target, ve) or again("the source", c10.observe(
                            module, et, source, ve))
                    except Exception as e:
                        why = "%s: %s" % (type(e).__name__, e)
                    if why:
                        res.violation("optional:" + c.text, "copy %s the value of an optional field %r: %s" % (
                            "into" if back else "from", ve, why), case=c.name, schema=c.text)
                        break
    return res


def check(ctx):
    tasks = [([c], 99) for c in ctx.pick(space.singles(LIB))]
    for part in core.chunks(ctx.pick(space.wrapped_singles(LIB)), 20):
        tasks.append((part, 99 if ctx.thorough else 2))
    for part in core.chunks(ctx.pick(space.core_pairs(LIB)), 12):
        tasks.append((part, 99 if ctx.thorough else 2))
    for part in core.chunks(ctx.pick(space.patched_cases(LIB))[::1 if ctx.thorough else 4], 12):
        tasks.append((part, 99 if ctx.thorough else 2))
    if ctx.thorough:
        for part in core.chunks(ctx.pick(space.tiny_triples(LIB)), 12):
            tasks.append((part, 4))
        for part in core.chunks(ctx.pick(space.wrapped_tiny_pairs(LIB)), 12):
            tasks.append((part, 4))
    res = core.parallel(work, tasks, ctx.seed)
    arrays = [c for c in space.singles(LIB) if c.top.members[-1].kind in ("dyn", "lim", "greedy", "ext") and
              c.top.members[-1].type is not BYTES and c.top.members[-1].type.base().is_composite]
    arrays += [c for c in space.wrapped_singles(LIB) if isinstance(c.top, Struct) and
               c.text.split(" with ")[0] in ("S<> u8", "u8 S<...>", "u8 S<2> u8")]
    res.merge(core.parallel(extend_work, core.chunks(ctx.pick(arrays), 10), ctx.seed))
    optionals = [c for c in space.singles(LIB) if c.top.members[0].kind == "opt" and
                 c.top.members[0].type.base().is_composite]
    res.merge(core.parallel(optional_work, core.chunks(ctx.pick(optionals), 3), ctx.seed))
    return res


def main():
    return core.run("C11", check, assumptions=[
        "bounded: the schema and value space of mc/space.py, one mutation after the copy (alphabet of mc/history.py)"])
