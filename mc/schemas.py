"""Helpers for the checks that walk the schema space with the Python codec."""
import os
import sys

from . import core, pyside, ref, space

CHUNK = 240


def group_text(lib, group):
    return ref.render_schema(lib.decls) + "".join(ref.render_schema(c.decls) for c in group)


def build_python(res, lib, group, outputs=("python",)):
    """Compile a group of cases; yields (group, module) for those that build.

    A group that fails is split, so that a defect is attributed to one case.
    """
    with core.Scratch() as d:
        try:
            with core.Watchdog(120):
                nodes = pyside.compile_text(group_text(lib, group), d, outputs=outputs)
                module = pyside.load_module(os.path.join(d, "schema.py"))
            module._nodes = nodes
            return [(group, module)]
        except (Exception, core.Hang) as e:
            error = e
    if len(group) == 1:
        c = group[0]
        res.violation("build:" + c.text, "valid schema is not usable from Python: %s: %s" % (
            type(error).__name__, error), case=c.name, schema=group_text(lib, group))
        return []
    half = len(group) // 2
    if len(res.violations) > 5:
        res.violation("build", "valid schemas are not usable from Python: %s: %s" % (
            type(error).__name__, error), case=group[0].name)
        return []
    return build_python(res, lib, group[:half], outputs) + build_python(res, lib, group[half:], outputs)
