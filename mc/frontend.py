"""Runs prophyc as a whole and classifies how it ended."""
import contextlib
import io
import os
import re
import sys

from . import core, pyside

LOCATED = re.compile(r"^(prophyc: error: )?.+:\d+:\d+: error: .+$")
DEADLINE = 20


class Outcome(object):
    """kind: ok, error (designed diagnostic), exit0 (help), internal, hang."""

    def __init__(self, kind, message="", nodes=None, cause=None, stderr=""):
        self.kind, self.message, self.nodes, self.cause, self.stderr = kind, message, nodes, cause, stderr

    @property
    def located(self):
        lines = self.message.split("\n")
        return all(LOCATED.match(x) for x in lines)

    def __str__(self):
        return self.kind + (": " + self.message if self.message else "")


def designed(e):
    """An exception that prophyc raises on purpose: its own classes, or a bare Exception with a text."""
    cls = type(e)
    return (cls.__module__.split(".")[0] == "prophyc" or cls is Exception) and bool(str(e))


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        yield


def call(args, cwd=None, deadline=DEADLINE):
    import prophyc
    old = os.getcwd() if cwd else None
    err, out = io.StringIO(), io.StringIO()
    if cwd:
        os.chdir(cwd)
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
            with core.Watchdog(deadline):
                try:
                    nodes = prophyc.main(list(args))
                    return Outcome("ok", nodes=nodes, stderr=err.getvalue())
                except core.Hang:
                    raise
                except SystemExit as e:
                    if e.code in (0, None):
                        return Outcome("exit0", out.getvalue())
                    return Outcome("internal", "SystemExit: %s" % e)
                except Exception as e:
                    cause = type(e.__context__).__name__ if e.__context__ is not None else None
                    if designed(e):
                        return Outcome("error", str(e), cause=cause, stderr=err.getvalue())
                    return Outcome("internal", "%s: %s" % (type(e).__name__, e), cause=cause)
    except core.Hang as e:
        return Outcome("hang", str(e))
    finally:
        if cwd:
            os.chdir(old)


def pool_parsers():
    """Building a parser takes most of the time of a run; keep them between the runs of this process.

    Returns a function that undoes it; what a pooled run finds is confirmed without the pool.
    """
    pyside  # sets the import path up
    try:
        import prophyc.parsers.prophy as pp
        original = pp.allocate_parser
    except (ImportError, AttributeError):
        return lambda: None
    free = []
    pp.allocate_parser = lambda _: original(free)

    def undo():
        pp.allocate_parser = original
    return undo
