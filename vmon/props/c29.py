"""C29 - results do not depend on the environment of the process."""
import gc
import logging
import os
import pickle
import random
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import traceback
import warnings

import numpy as np
import toughio  # noqa: F401

from vmon.lib import tio  # noqa: F401
from vmon.props import c06

RULE = ("Case = 2 to 6 calls of the public API (the operations of C06: inputs, outputs, meshes, makers, models, commands, some made to fail), each made in this process and in one started "
        "with another hash seed, optimisation level, time zone, terminal width, user, umask, folder and number of threads, in which NumPy print options, error state, random states, logging level, "
        "decimal context, garbage collection, warning filters and the thread the call is made in differ as well. Every result and file written is compared. Distinct = operations x environment.")
ASSUMPTIONS = ["text files are encoded in UTF-8 in all environments", "the time of day in the comments of FLAC3D grids is not content"]
REACH = {"compared": 800, "raised": 60, "thread": 200, "printoptions": 400, "other hashes": 700, "asserts:False": 200, "warnings": 300, "logging": 300, "decimal": 300, "env:O": 60, "env:dev": 60, "env:bare": 60}
CASE_CPU_LIMIT = 240
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

# name -> (options of the interpreter, variables, variables removed, umask)
ENVIRONMENTS = {
    "O": (["-O"], {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "COLUMNS": "20", "LINES": "5", "OMP_NUM_THREADS": "3"}, [], 0o022),
    "dev": (["-X", "dev", "-W", "ignore"], {"PYTHONHASHSEED": "987654321", "LC_ALL": "C.utf8", "LANG": "C.utf8", "TZ": "UTC+11", "USER": "somebody", "COLUMNS": "400"}, [], 0o077),
    "bare": (["-b", "-u"], {"PYTHONHASHSEED": "4242", "TERM": "dumb"}, ["USER", "LOGNAME", "LANG", "LC_ALL", "PWD", "SHELL"], 0o002),
}


def perform(job):
    """One call in the state of the process that the job asks for: (kind, digest, text)."""
    key, name, seed, st = job
    top = tempfile.mkdtemp(prefix="vmon_env_")
    out, flags = [], []
    try:
        logging.disable(logging.CRITICAL)
        pool = c06.Pool(key, top)
        start = c06.digest(pool.image())
        r = random.Random(st)
        if st is not None:
            if r.random() < 0.6:
                flags.append("printoptions")
                np.set_printoptions(precision=2, threshold=4, edgeitems=1, linewidth=20, suppress=r.random() < 0.5, formatter={"float": lambda x: "?"} if r.random() < 0.3 else None)
            np.random.seed(r.randrange(1000))
            random.seed(r.randrange(1000))
            if r.random() < 0.3:
                flags.append("errstate")
                np.seterr(all="ignore")
            if r.random() < 0.5:
                import decimal
                flags.append("decimal")
                decimal.getcontext().prec = 3
            if r.random() < 0.3:
                flags.append("gc")
                gc.disable()
            if r.random() < 0.5:
                flags.append("warnings")
                warnings.simplefilter("always")
                warnings.showwarning = lambda *a, **k: None
            if r.random() < 0.5:
                flags.append("logging")
                logging.disable(logging.NOTSET)
                logging.getLogger().setLevel(r.choice([logging.DEBUG, logging.ERROR]))
                logging.getLogger().handlers[:] = [logging.NullHandler()]
            os.chdir(r.choice(["/", top]))

        def go():
            try:
                out.append(c06.perform(pool, name, seed))
            except BaseException:
                out.append(("harness", traceback.format_exc(), None))
        if st is not None and r.random() < 0.4:
            flags.append("thread")
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        kind, img, _ = out[0]
        if kind == "harness":
            return out[0]
        return (kind, start, c06.digest(img), repr(img)[:60000], flags + ["hash:%s" % hash("toughio"), "asserts:%s" % __debug__])
    except BaseException:
        return ("harness", traceback.format_exc(), None)
    finally:
        os.chdir("/")
        shutil.rmtree(top, ignore_errors=True)


def in_fork(job):
    """The same in a process of its own (nothing is left behind by earlier calls)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            c06.Zygote.send(w, perform(job))
        finally:
            os._exit(0)
    os.close(w)
    out = c06.Zygote.recv(r)
    os.close(r)
    os.waitpid(pid, 0)
    return out


def serve(r, w):
    import toughio._cli  # noqa: F401
    while True:
        job = c06.Zygote.recv(r)
        if job is None:
            return
        c06.Zygote.send(w, in_fork(job))


class Server(object):
    """Interpreter started in another environment; ends when its input is closed."""

    def __init__(self, name):
        opts, var, gone, umask = ENVIRONMENTS[name]
        env = dict(os.environ, **var)
        for k in gone:
            env.pop(k, None)
        env.setdefault("PYTHONPATH", "")
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.getpid()
        code = "import os; os.umask(%d); from vmon.props import c29; c29.serve(%d, %d)" % (umask, r1, w2)
        self.p = subprocess.Popen([sys.executable] + opts + ["-c", code], env=env, cwd=tempfile.gettempdir(), pass_fds=(r1, w2),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    def ask(self, job):
        c06.Zygote.send(self.w, job)
        return c06.Zygote.recv(self.r)


SERVERS = {}


def server(name):
    s = SERVERS.get(name)
    if s is None or s.pid != os.getpid():
        s = SERVERS[name] = Server(name)
    return s


def environment(case):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    key = "c29|%s|%s|%d" % (case.seed, case.tier, case.index)
    env = rng.choice(sorted(ENVIRONMENTS))
    names = []
    for i in range(rng.randint(2, 6)):
        name, seed, st = rng.choice(sorted(c06.OPS)), rng.randrange(10 ** 9), rng.randrange(10 ** 9)
        a = in_fork((key, name, seed, None))
        b = server(env).ask((key, name, seed, st))
        for x in (a, b):
            case.check(x is not None and x[0] != "harness", "harness", lambda: repr(x))
        case.check(a[1] == b[1], "arguments", lambda: "arguments made for %s differ in environment %s" % (name, env))
        case.check(a[0] == b[0] and a[2] == b[2], "environment", lambda: "%s in environment %s (state %d): %s" % (name, env, st, c06.diff(a[3], b[3])))
        case.count("compared")
        case.count("op:" + name)
        case.count("raised", int(a[0] == "raised"))
        case.count("env:" + env)
        for f in b[4]:
            case.count(f.split(":")[0] if f.startswith("hash") else f)
        case.count("other hashes", int(a[4][-2] != b[4][-2]))
        names.append(name)
    case.shape(tuple(names), env)
    case.note = {"calls": names, "environment": env}


FAMILIES = {"environment": (environment, 400, 4000)}
