"""Runs prophyc jobs, every job in a process of its own.

usage: runner.py REPO < jobs; a job is a list of steps, a step is (directory, arguments). Each
job is a fork of a process that has imported the compiler and done nothing else with it, so the
steps of a job see what the earlier ones left behind and jobs do not see each other. Writes one
JSON list per job: for every step "ok" or what went wrong.
"""
import importlib
import json
import os
import sys


def another_day(seconds):
    """Everything that can tell when, who and where we are tells something else."""
    import datetime
    import getpass
    import random
    import socket
    import time
    real = time.time
    originals = {"localtime": time.localtime, "gmtime": time.gmtime}
    time.time = lambda: real() + seconds
    for name, f in originals.items():
        setattr(time, name, lambda t=None, f=f: f(time.time() if t is None else t))
    strftime = time.strftime
    time.strftime = lambda fmt, t=None: strftime(fmt, time.localtime() if t is None else t)
    time.ctime = lambda t=None: time.asctime(time.localtime(t))

    class Datetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(time.time())

        @classmethod
        def today(cls):
            return cls.now()

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    datetime.datetime, datetime.date = Datetime, Date
    getpass.getuser = lambda: "somebody"
    socket.gethostname = lambda: "elsewhere"
    random.seed(seconds)


def perform(steps):
    import prophyc
    out = []
    for cwd, args in steps:
        os.chdir(cwd)
        try:
            prophyc.main(args)
            out.append("ok")
        except SystemExit as e:
            out.append("exit %s" % (e.code,))
        except Exception as e:
            out.append("%s: %s" % (type(e).__name__, e))
    return out


def main():
    jobs = json.load(sys.stdin)
    sys.path.insert(0, sys.argv[1])
    sys.dont_write_bytecode = True
    if os.environ.get("VERIF_ANOTHER_DAY"):
        another_day(int(os.environ["VERIF_ANOTHER_DAY"]))
    import prophyc   # noqa: the forks start from here
    for name in ("parsers.prophy", "parsers.isar", "parsers.sack", "generators.python", "generators.cpp", "generators.cpp_full",
                 "generators.prophy", "patch", "calc", "model"):
        try:
            importlib.import_module("prophyc." + name)
        except ImportError:
            pass
    replies = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    for steps in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(perform(steps)))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        replies.write((text or '["died"]') + "\n")
    replies.flush()


if __name__ == "__main__":
    main()
