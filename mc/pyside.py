"""Runs prophyc and the Python runtime of the current tree."""
import importlib.util
import os
import re
import sys

from . import core, ref
from .ref import BYTES, Enum, Struct, Union

sys.dont_write_bytecode = True
if core.REPO not in sys.path:
    sys.path.insert(0, core.REPO)

_count = [0]


def prophyc_main(args):
    import prophyc
    return prophyc.main(args)


LIMITED = re.compile(r"(\w+ (\w+))<(\w+)@(\w+)>;")


def patched(text):
    """Limited arrays with a sizer of their own, T x<n@sizer>, become fixed ones and rules of a patch."""
    rules = []

    def struct(g):
        def member(f):
            rules.append("%s limited %s %s\n" % (g.group(1), f.group(2), f.group(4)))
            return "%s[%s];" % (f.group(1), f.group(3))
        return LIMITED.sub(member, g.group())

    return re.sub(r"struct (\w+)[^}]*}", struct, text), "".join(rules)


def compile_text(text, directory, name="schema", outputs=("python",), extra=()):
    """Write text to a .prophy file and run prophyc in process on it. Returns the model nodes."""
    path = os.path.join(directory, name + ".prophy")
    text, rules = patched(text)
    with open(path, "w") as f:
        f.write(text)
    args = []
    if rules:
        with open(os.path.join(directory, name + ".patch"), "w") as f:
            f.write(rules)
        args += ["--patch", os.path.join(directory, name + ".patch")]
    for o in outputs:
        args += ["--%s_out" % o, directory]
    return prophyc_main(args + list(extra) + [path])


def load_module(path):
    _count[0] += 1
    spec = importlib.util.spec_from_file_location("verif_gen_%d" % _count[0], path)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


def set_value(msg, t, v):
    """Assign a reference value to a message through the public API."""
    t = t.base()
    if isinstance(t, Union):
        msg.discriminator = v[0]
        at = t.arm(v[0])[1].base()
        if at.is_composite:
            set_value(getattr(msg, v[0]), at, v[1])
        else:
            setattr(msg, v[0], v[1])
        return
    for m in t.members:
        if m.name in t.sizers:
            continue
        val = v[m.name]
        mt = m.type.base()
        if m.type is BYTES:
            setattr(msg, m.name, val)
        elif m.kind == "plain":
            if mt.is_composite:
                set_value(getattr(msg, m.name), mt, val)
            else:
                setattr(msg, m.name, val)
        elif m.kind == "opt":
            if val is None:
                setattr(msg, m.name, None)
            elif mt.is_composite:
                setattr(msg, m.name, True)
                set_value(getattr(msg, m.name), mt, val)
            else:
                setattr(msg, m.name, val)
        else:
            arr = getattr(msg, m.name)
            if mt.is_composite:
                if m.kind == "fixed":
                    for el, ev in zip(arr, val):
                        set_value(el, mt, ev)
                else:
                    del arr[:]
                    for ev in val:
                        set_value(arr.add(), mt, ev)
            else:
                arr[:] = val


def get_value(msg, t):
    """Read a message back into a reference value through the public API."""
    t = t.base()
    if isinstance(t, Union):
        disc = msg.discriminator
        arms = [a for a in t.arms if a[0] == disc]
        d, at, name = arms[0]
        return (name, _get(getattr(msg, name), at))
    out = {}
    for m in t.members:
        if m.name in t.sizers:
            continue
        val = getattr(msg, m.name)
        if m.type is BYTES:
            out[m.name] = b"" if isinstance(val, str) and val == "" else val
        elif m.kind == "plain":
            out[m.name] = _get(val, m.type)
        elif m.kind == "opt":
            out[m.name] = None if val is None else _get(val, m.type)
        else:
            out[m.name] = [_get(el, m.type) for el in val]
    return out


def _get(val, t):
    t = t.base()
    if t.is_composite:
        return get_value(val, t)
    if isinstance(t, Enum):
        return int(val)
    return val


def strict_eq(a, b):
    """Equality that tells bytes from str and int from float-like surprises."""
    if type(a) is dict:
        return type(b) is dict and set(a) == set(b) and all(strict_eq(a[k], b[k]) for k in a)
    if type(a) in (list, tuple):
        return type(b) in (list, tuple) and len(a) == len(b) and all(strict_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, bytes) or isinstance(b, bytes):
        return isinstance(a, bytes) and isinstance(b, bytes) and a == b
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return a == b


def hexs(b):
    return b.hex() if isinstance(b, bytes) else repr(b)
