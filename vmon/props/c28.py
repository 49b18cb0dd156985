"""C28 - calls made at the same time do not disturb each other."""
import hashlib
import logging
import os
import random
import re
import sys
import threading

import toughio

from vmon import core
from vmon.lib import tio
from vmon.props import c06

RULE = ("Case = 2 to 4 threads, each making 1 to 4 calls of the public API (readers, writers, meshes, properties, conversions, makers, models, commands; some made "
        "to fail) on shared arguments that they only read. A scheduler lets one thread run at a time and passes the turn at seeded source lines of the library "
        "(traced line by line), so that every interleaving is deterministic and can be replayed; in one family the turn is passed at nearly every line, in another rarely, in a third only "
        "at the first visits of lines of one module. Every result and file is compared with that of the same call made alone; the shared arguments are imaged before and after. "
        "Distinct = sequence of (thread, line) at which the turn was passed.")
ASSUMPTIONS = ["the interpreter runs one line of the library at a time (CPython with its lock); switches inside one line are not explored",
               "calls that edit a mesh in place by contract get their own copy", "two calls do not write the same file (they may write into the same folder)"]
REACH = {"compared": 1000, "switches": 20000, "overlapped": 300, "same_call": 60, "one folder": 60, "raised": 40, "modules": 1000}
CASE_CPU_LIMIT = 240
SOURCE = os.path.join(core.REPO, "toughio") + os.sep


class Pool(c06.Pool):
    """The pool of C06 with a counter of output folders that threads may share, or one folder for all."""

    lock = threading.Lock()
    shared = None

    def new(self, name):
        if self.shared and name != "MESH":  # MESH has a companion of a given name
            return os.path.join(self.shared, "%s_%s" % (JOB.tag, name))
        with self.lock:
            self.n += 1
            d = os.path.join(self.top, "out%d" % self.n)
        os.makedirs(d)
        return os.path.join(d, name)


JOB = threading.local()


def text_of(f):
    """Files written by the job; those of the other jobs may be in the same folder."""
    d, name = os.path.split(f)
    tag = re.match(r"t\d+j\d+_", name)
    tag = tag.group() if tag else ""
    return {n: tio.contents(os.path.join(d, n)) for n in sorted(os.listdir(d)) if n.startswith(tag)}


c06.text_of = text_of


def op_command(p, r):
    """Commands with absolute names (they print; the output is caught for the whole case)."""
    k = r.choice(["save2incon", "extract", "extract", "export", "bad"])
    f = p.new("RESULT")
    if k == "save2incon":
        toughio._cli.save2incon([p.save, f] + r.choice([[], ["-r"]]))
    elif k == "extract":
        toughio._cli.extract([p.listing, p.mesh_text, "-o", f] + r.choice([[], ["-s"], ["-f", "petrasim"]]))
    elif k == "export":
        src = os.path.join(os.path.dirname(f), os.path.basename(f).replace("RESULT", "o.csv"))
        toughio.write_output(src, p.outs)
        toughio._cli.export([src, "-o", f, "-f", r.choice(["vtk", "tecplot"])])
    else:
        toughio._cli.extract([p.listing, p.bad, "-o", f])
    return text_of(f)


OPS = dict((k, v) for k, v in c06.OPS.items() if k != "cli")
OPS["command"] = op_command
# calls whose code takes long to trace are chosen less often
NAMES = sorted(OPS)


def perform(pool, name, seed, tag):
    JOB.tag = tag
    r = random.Random(seed)
    try:
        x = OPS[name](pool, r)
    except (MemoryError, AssertionError):
        raise
    except (Exception, SystemExit) as e:
        msg = re.sub(r"out\d+", "out", str(e).replace(pool.top, "<top>"))
        return ("raised", (type(e).__name__, re.sub(r"run-id \d+", "run-id", msg)))  # Qhull gives the time of day
    return ("value", c06.image(x))


class Scheduler(object):
    """One thread at a time; the turn is passed at lines of the library chosen by a seeded stream."""

    def __init__(self, rng, n, chance, burst):
        self.rng, self.n = rng, n
        self.chance, self.burst = chance, burst
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = set(range(n))
        self.trace = hashlib.sha256()
        self.switches = 0
        self.modules = set()
        self.stuck = False
        self.seen = {}
        self.hot = None

    def wait(self, me):
        with self.cv:
            while self.turn != me:
                if not self.cv.wait(100):
                    self.stuck = True
                    raise core.Inconclusive("thread never got its turn")

    def give(self, me, where):
        with self.cv:
            others = sorted(self.alive - {me})
            if not others:
                return
            self.turn = self.rng.choice(others)
            self.switches += 1
            self.trace.update(repr((me, self.turn, where)).encode())
            self.cv.notify_all()
            while self.turn != me:
                if not self.cv.wait(100):
                    self.stuck = True
                    raise core.Inconclusive("thread never got its turn")

    def leave(self, me):
        with self.cv:
            self.alive.discard(me)
            if self.turn == me and self.alive:
                self.turn = self.rng.choice(sorted(self.alive))
            self.cv.notify_all()

    def tracer(self, me):
        """Trace function of a thread: line events of the library only."""
        def local(frame, event, arg):
            if event == "line":
                c = frame.f_code
                where = (c.co_filename[len(SOURCE):], frame.f_lineno)
                self.modules.add(where[0])
                if self.chance is None:
                    # only where a line is met for the first, second, fourth ... time by a thread
                    k = self.seen.get((me, where), 0) + 1
                    self.seen[(me, where)] = k
                    go = k & (k - 1) == 0 and self.rng.random() < 0.5
                else:
                    go = self.rng.random() < self.chance
                if go:
                    self.give(me, where)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SOURCE) else None
        return glob


def together(case, chance):
    logging.disable(logging.CRITICAL)
    rng = case.rng
    pool = Pool("c28|%s|%s|%s|%d" % (case.seed, case.tier, case.family, case.index), case.subdir("h"))
    n = rng.choice([2, 2, 2, 3, 4])
    same = rng.random() < 0.4
    jobs = []
    first = [(rng.choice(NAMES), rng.randrange(10 ** 9)) for _ in range(rng.randint(1, 3))]
    for t in range(n):
        if same and t:
            # the same calls, or the same kinds of call on other arguments
            jobs.append([(a, s if rng.random() < 0.3 else rng.randrange(10 ** 9)) for a, s in first])
        else:
            jobs.append(first if not t else [(rng.choice(NAMES), rng.randrange(10 ** 9)) for _ in range(rng.randint(1, 3))])
    with tio.quiet():
        # alone first: also imports what the calls import
        shared = rng.random() < 0.5
        if shared:
            pool.shared = case.subdir("out1")
        want = [[perform(pool, a, s, "t%dj%d" % (t, j)) for j, (a, s) in enumerate(J)] for t, J in enumerate(jobs)]
        if shared:
            listing = sorted(os.listdir(pool.shared))
            pool.shared = case.subdir("out2")
        before, files = pool.image(), pool.files()
        S = Scheduler(random.Random(rng.randrange(10 ** 9)), n, chance, 0)
        got = [[] for _ in jobs]
        errors = []

        def work(me):
            try:
                S.wait(me)
                sys.settrace(S.tracer(me))
                try:
                    for j, (a, s) in enumerate(jobs[me]):
                        got[me].append(perform(pool, a, s, "t%dj%d" % (me, j)))
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errors.append(e)
            finally:
                S.leave(me)

        T = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
        for t in T:
            t.start()
        for t in T:
            t.join(200)
    if S.stuck or any(t.is_alive() for t in T):
        raise core.Inconclusive("threads did not end")
    for e in errors:
        raise e
    for t, J in enumerate(jobs):
        for (name, _), w, g in zip(J, want[t], got[t]):
            case.check(w == g, "disturbed", lambda: "%s gives another result while %r run: %s" % (
                name, [[a for a, _ in x] for k, x in enumerate(jobs) if k != t], c06.diff(repr(w), repr(g))))
            case.count("compared")
            case.count("op:" + name)
            case.count("raised", int(g[0] == "raised"))
    for part, a, b in zip(c06.PARTS, before, pool.image()):
        case.check(a == b, "argument-changed", lambda: "the %s shared by the calls %r changed" % (part, jobs))
    case.check(pool.files() == files, "file-changed", "a file that the calls only read changed")
    if shared:
        case.check(sorted(os.listdir(pool.shared)) == listing, "files", lambda: "files left in the folder: %r, alone: %r" % (sorted(os.listdir(pool.shared)), listing))
        case.count("one folder", int(len(listing) > 1))
    case.count("switches", S.switches)
    case.count("overlapped", int(S.switches > 1))
    case.count("same_call", int(same))
    case.count("modules", len(S.modules))
    case.shape(S.trace.hexdigest())
    case.note = {"calls": [[a for a, _ in J] for J in jobs], "switches": S.switches}


def dense(case):
    together(case, case.rng.choice([0.9, 0.3]))


def sparse(case):
    together(case, case.rng.choice([0.05, 0.01, 0.002]))


def fresh(case):
    together(case, None)


SCALE = 2
FAMILIES = {"dense": (dense, 200, 1500), "sparse": (sparse, 300, 3000), "fresh": (fresh, 300, 3000)}
