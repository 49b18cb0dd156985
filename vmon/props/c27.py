"""C27 - calls read and write only the files they are given."""
import copy
import errno
import gc
import hashlib
import logging
import os
import random
import resource
import shutil
import sys

import h5py  # noqa: F401
import meshio
import numpy as np
import toughio

from vmon.lib import tio
from vmon.props import c06

RULE = ("Case = one call (readers, writers, commands) on files whose names hold blanks, dots, capitals or characters beyond ASCII, given as absolute or "
        "relative names, in a folder holding unrelated files with tempting names (MESH, INCON, backup and temporary names) and, half of the time, older and "
        "longer files under the names to be written. Python audit events (open for writing, remove, rename, truncate, ...) are recorded during the call, the "
        "whole tree (names, bytes, types, inode times) is imaged before and after, open descriptors are listed before and after, and the call is made again in an "
        "empty folder: both must give the same. After a read, the file is overwritten and removed and the result imaged again. In another family the size of files is limited "
        "below what the call is to write (RLIMIT_FSIZE): it must raise, touch nothing else, and succeed when called again with room. "
        "Distinct = call x names x place x state of the folder.")
ASSUMPTIONS = ["input files are regular files that nobody else changes", "the time of day in the comments of FLAC3D grids is not content",
               "companion files are the HDF5 data of XDMF files, INCON beside MESH, and the numbered files of a split export"]
REACH = {"read": 300, "written": 300, "replaced": 150, "failed": 60, "full": 100, "command": 150, "independent": 250, "audited": 600, "elsewhere": 300, "numbered": 20, "companion": 30}

# --- audit ---------------------------------------------------------------------------------
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
EVENTS = {"os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.truncate", "os.link", "os.symlink", "os.utime", "os.chown",
          "shutil.move", "shutil.rmtree", "subprocess.Popen", "os.system", "os.exec", "os.fork", "socket.connect", "socket.bind"}
LOG = None
HOOKED = None


def hook(event, args):
    if LOG is None:
        return
    if event == "open":
        path, mode, flags = args
        w = any(c in mode for c in "wax+") if isinstance(mode, str) else bool((flags or 0) & WRITES)
        if w and not isinstance(path, int):
            LOG.append(("write", os.path.abspath(os.fsdecode(path))))
        elif isinstance(path, (str, bytes)):
            LOG.append(("read", os.path.abspath(os.fsdecode(path))))
    elif event in EVENTS:
        a = args[0] if args else None
        LOG.append((event, os.path.abspath(os.fsdecode(a)) if isinstance(a, (str, bytes, os.PathLike)) else repr(args)[:100]))
        if event in ("os.rename", "os.link", "os.symlink", "shutil.move"):
            LOG.append((event, os.path.abspath(os.fsdecode(args[1]))))


class audited(object):
    def __enter__(self):
        global LOG, HOOKED
        if HOOKED != os.getpid():
            sys.addaudithook(hook)
            HOOKED = os.getpid()
        LOG = self.log = []
        return self

    def __exit__(self, *exc):
        global LOG
        LOG = None
        return False


def warmup():
    """Audit hooks are inherited by forked workers: install one here only."""
    global HOOKED
    sys.addaudithook(hook)
    HOOKED = "all"


def tree(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            if os.path.isdir(p) and not os.path.islink(p):
                out[os.path.relpath(p, top)] = ("dir", s.st_mode)
            else:
                out[os.path.relpath(p, top)] = ("file", s.st_mode, s.st_size, s.st_ino, s.st_mtime_ns, hashlib.sha256(tio.read_bytes(p)).hexdigest())
    return out


def descriptors(top):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(top):
            out.append(t)
    return sorted(out)


# --- names ---------------------------------------------------------------------------------
STEMS = ["out", "run 1", "Caf\u00e9", "a.b", "x-2_y", "UP", "data.v2", "r\u00e9sultat \u00e0 lire", "99", "k%d", "{x}", "~tmp", "~root", "$HOME", "a*b?"]
FOLDERS = ["work", "run 7", "v1.2", "\u00e9t\u00e9", "run.csv", "[a]", "MESH.d", "out.json"]
DECOYS = ["MESH", "INCON", "INFILE", "GENER", "SAVE", "OUTPUT_ELEME.csv", "FOFT", "notes.txt", "mesh.pickle", "x.h5", "CO2TAB"]


class Place(object):
    """Folder in which a call is made, with or without company."""

    def __init__(self, top, folder, crowded, rng):
        self.top = top
        self.dir = os.path.join(top, folder)
        os.makedirs(self.dir)
        self.crowded = crowded
        r = rng
        # the working folder is not always that of the files
        self.cwd = self.dir if r.random() < 0.5 else os.path.join(top, "elsewhere")
        os.makedirs(self.cwd, exist_ok=True)
        if crowded:
            if self.cwd != self.dir:
                for n in ("MESH", "INCON", "CO2TAB"):
                    tio.write_text(os.path.join(self.cwd, n), "elsewhere\n")
            for n in DECOYS:
                if r.random() < 0.6:
                    tio.write_text(os.path.join(self.dir, n), r.choice(["", "not this one\n", "INCON\n", "ELEME\n", "{}", "1 2 3\n" * 40]))
            os.makedirs(os.path.join(self.dir, "sub"))
            tio.write_text(os.path.join(self.dir, "sub", "INFILE"), "x")

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, src):
        shutil.copyfile(src, self.path(name))
        return self.path(name)


def spell(rng, place, path):
    """The same file, named in another way."""
    rel = os.path.relpath(path, place.cwd)
    return rng.choice([path, rel, "./" + rel, "../%s/%s" % (os.path.basename(place.cwd), rel)])


# --- calls: fn(pool, place, rng) -> (call, names of the files written, names of the files read) ----
def stem(rng):
    return rng.choice(STEMS)


def w_input(pool, pl, rng):
    f = stem(rng) + rng.choice(["", ".json", ".dat"])
    P = rng.choice(pool.P)
    kw = {"block": "all"} if not f.endswith(".json") and rng.random() < 0.4 else {}
    a = spell(rng, pl, pl.path(f))
    return lambda: toughio.write_input(a, P, **kw), [f], []


def w_output(pool, pl, rng):
    fmt, ext = rng.choice([("csv", ".csv"), ("petrasim", ".csv"), ("tecplot", ".tec"), ("csv", ""), ("tecplot", ".x")])
    f = stem(rng) + ext
    o = rng.choice([pool.outs, pool.outs[-1]])
    a = spell(rng, pl, pl.path(f))
    return lambda: toughio.write_output(a, o, file_format=fmt), [f], []


def w_mesh(pool, pl, rng):
    fmt, ext = rng.choice([("tough", ""), ("tough", ""), ("flac3d", ".f3grid"), ("tecplot", ".dat"), ("avsucd", ".avs"), ("pickle", ".pickle"),
                           ("vtk", ".vtk"), ("vtu", ".vtu"), ("xdmf", ".xdmf"), ("medit", ".mesh")])
    f = stem(rng) + ext
    kw = {"file_format": fmt}
    names = [f]
    if fmt == "tough":
        if rng.random() < 0.3:
            f = "MESH"
            names = [f]
        if rng.random() < 0.5:
            kw["incon"] = True
            if f == "INCON":
                f, names = "MESH", ["MESH"]
            names = [f, "INCON"]
    if fmt == "xdmf":
        names = [f, os.path.splitext(f)[0] + ".h5"]
    if fmt == "flac3d":
        kw["binary"] = rng.random() < 0.5
    m = rng.choice([pool.m, pool.flat]) if fmt in ("vtk", "pickle", "tecplot") else with_state(pool) if kw.get("incon") else pool.m
    a = spell(rng, pl, pl.path(f))
    by_method = rng.random() < 0.5
    return lambda: m.write(a, **kw) if by_method else toughio.write_mesh(a, m, **kw), names, []


def with_state(pool):
    m = copy.deepcopy(pool.m)
    m.add_cell_data("initial_condition", np.arange(2.0 * m.n_cells).reshape(m.n_cells, 2) + 1.0)
    return m


def w_incon(pool, pl, rng):
    m = with_state(pool)
    f = rng.choice([stem(rng), "INCON"])
    a = spell(rng, pl, pl.path(f))
    return lambda: m.write_incon(a), [f], []


def w_series(pool, pl, rng):
    f = stem(rng) + ".xdmf"
    n = rng.randint(1, 3)
    cd = [{"a": np.arange(pool.m.n_cells) * (1.0 + i)} for i in range(n)]
    a = spell(rng, pl, pl.path(f))
    return lambda: toughio.write_time_series(a, pool.m.points, pool.m.cells, cell_data=cd, time_steps=[float(i) for i in range(n)]), [f, f[:-5] + ".h5"], []


def prepared(pool, name, make):
    """A file made once, before anything is watched."""
    f = os.path.join(pool.src, name)
    if not os.path.exists(f):
        make(f)
    return f


def r_input(pool, pl, rng):
    k = rng.choice(["INFILE", "x.json", "SAVE", "MESH"])
    if k == "INFILE":
        src = prepared(pool, "p_INFILE", lambda f: toughio.write_input(f, dict(pool.P[0], title="A title")))
    elif k == "x.json":
        src = prepared(pool, "p.json", lambda f: toughio.write_input(f, pool.P[1]))
    else:
        src = pool.save if k == "SAVE" else pool.mesh_text
    f = stem(rng) + (".json" if k == "x.json" else "")
    pl.put(f, src)
    a = spell(rng, pl, pl.path(f))
    return lambda: toughio.read_input(a), [], [f]


def r_output(pool, pl, rng):
    k = rng.choice(["listing", "SAVE", ".csv", "petrasim", ".tec"])
    if k == "listing":
        src, ext = pool.listing, rng.choice(["", ".out"])
    elif k == "SAVE":
        src, ext = pool.save, rng.choice(["", ".SAVE"])
    else:
        fmt = {".csv": "csv", "petrasim": "petrasim", ".tec": "tecplot"}[k]
        ext = ".tec" if fmt == "tecplot" else ".csv"
        src = prepared(pool, "p_%s" % fmt, lambda f: toughio.write_output(f, pool.outs, file_format=fmt))
    f = stem(rng) + ext
    pl.put(f, src)
    a = spell(rng, pl, pl.path(f))
    kw = {"labels_order": list(pool.labels)[::-1]} if k not in (".tec",) and rng.random() < 0.3 else {}
    return lambda: toughio.read_output(a, **kw), [], [f]


def r_history(pool, pl, rng):
    f = stem(rng) + rng.choice(["", ".csv", ".txt"])
    pl.put(f, pool.hist)
    a = spell(rng, pl, pl.path(f))
    return lambda: toughio.read_history(a), [], [f]


def r_mesh(pool, pl, rng):
    fmt, ext = rng.choice([("flac3d", ".f3grid"), ("tecplot", ".dat"), ("avsucd", ".avs"), ("pickle", ".pickle"), ("vtk", ".vtk"), ("vtu", ".vtu"), ("xdmf", ".xdmf"), ("tough", "")])
    f = stem(rng) + ext
    if fmt == "tough":
        pl.put(f, pool.mesh_text)
    elif fmt == "xdmf":
        with tio.quiet():
            toughio.write_mesh(pl.path(f), pool.m, file_format=fmt)
    else:
        pl.put(f, prepared(pool, "p_m" + ext, lambda g: toughio.write_mesh(g, pool.m, file_format=fmt)))
    a = spell(rng, pl, pl.path(f))
    names = [f] + ([f[:-5] + ".h5"] if fmt == "xdmf" else [])
    return lambda: toughio.read_mesh(a, file_format=fmt), [], names


def r_series(pool, pl, rng):
    f = stem(rng) + ".xdmf"
    cd = [{"a": np.arange(pool.m.n_cells) * (1.0 + i)} for i in range(2)]
    toughio.write_time_series(pl.path(f), pool.m.points, pool.m.cells, cell_data=cd, time_steps=[1.0, 2.0])
    a = spell(rng, pl, pl.path(f))

    def go():
        p, c, pd, cd, t = toughio.read_time_series(a)
        return [np.asarray(p), [(x.type, np.asarray(x.data)) for x in c], pd, cd, list(map(float, t))]
    return go, [], [f, f[:-5] + ".h5"]


def r_attach(pool, pl, rng):
    src, ext = rng.choice([(pool.listing, ""), (pool.save, ".SAVE"), (prepared(pool, "p_csv", lambda f: toughio.write_output(f, pool.outs, file_format="csv")), ".csv")])
    f = stem(rng) + ext
    pl.put(f, src)
    a = spell(rng, pl, pl.path(f))
    m = copy.deepcopy(pool.m)

    def go():
        m2 = copy.deepcopy(m)
        m2.read_output(a)
        return m2
    return go, [], [f]


MEMORY = ["property", "to_meshio", "to_pyvista", "from_meshio", "from_pyvista", "extrude", "prune", "near", "box", "maker", "model", "new_model", "mesh_ctor", "split"]


def r_memory(pool, pl, rng):
    """A call that has no business with files at all."""
    name, seed = rng.choice(MEMORY), rng.randrange(10 ** 9)

    def go():
        kind, img, x = c06.perform(pool, name, seed)
        return [kind, img]
    return go, [], []


# --- commands ------------------------------------------------------------------------------
def run(fn, argv):
    def go():
        with tio.quiet():
            fn(argv)
    return go


def x_save2incon(pool, pl, rng):
    f, g = "S" + stem(rng), stem(rng)
    pl.put(f, pool.save)
    return run(toughio._cli.save2incon, [spell(rng, pl, pl.path(f)), spell(rng, pl, pl.path(g))] + rng.choice([[], ["-r"]])), [g], [f]


def x_extract(pool, pl, rng):
    f, m = "S" + stem(rng) + rng.choice(["", ".out"]), "M" + stem(rng)
    pl.put(f, pool.listing)
    pl.put(m, pool.mesh_text)
    fmt = rng.choice(["csv", "csv", "tecplot", "petrasim"])
    ext = {"csv": ".csv", "tecplot": ".tec", "petrasim": ".csv"}[fmt]
    argv = [spell(rng, pl, pl.path(f)), spell(rng, pl, pl.path(m)), "-f", fmt]
    conn = fmt == "csv" and pool.hasconn and rng.random() < 0.3
    if conn:
        argv.append("-c")
    if rng.random() < 0.6:
        g = stem(rng) + rng.choice([ext, "", ".res"])
        argv += ["-o", spell(rng, pl, pl.path(g))]
    else:
        g = os.path.relpath(os.path.join(pl.cwd, ("OUTPUT_CONNE" if conn else "OUTPUT_ELEME") + ext), pl.dir)
    names = [g]
    if rng.random() < 0.4:
        argv.append("-s")
        if pool.ntimes > 1:
            h, e = os.path.splitext(g)
            names = ["%s_%d%s" % (h, i + 1, e) for i in range(pool.ntimes)]
    return run(toughio._cli.extract, argv), names, [f, m]


def x_export(pool, pl, rng):
    f = "S" + stem(rng) + ".csv"
    pl.put(f, prepared(pool, "p_csv", lambda f: toughio.write_output(f, pool.outs, file_format="csv")))
    m = "M" + stem(rng) + ".pickle"
    pl.put(m, prepared(pool, "p_m.pickle", lambda g: toughio.write_mesh(g, pool.m, file_format="pickle")))
    fmt = rng.choice(["vtk", "vtu", "tecplot", "xdmf"])
    ext = {"vtk": ".vtk", "vtu": ".vtu", "tecplot": ".dat", "xdmf": ".xdmf"}[fmt]
    argv = [spell(rng, pl, pl.path(f)), "-m", spell(rng, pl, pl.path(m)), "-f", fmt]
    if rng.random() < 0.6:
        g = stem(rng) + ext
        argv += ["-o", spell(rng, pl, pl.path(g))]
    else:
        g = os.path.splitext(f)[0] + ext
    return run(toughio._cli.export, argv), [g] + ([g[:-5] + ".h5"] if fmt == "xdmf" else []), [f, m]


def x_merge(pool, pl, rng):
    f = "S" + stem(rng)
    P = pool.P[0]
    P = {k: v for k, v in P.items() if not k.startswith(("elements", "connections", "initial_conditions"))}
    src = prepared(pool, "p_parts", lambda g: toughio.write_input(g, dict(P, title="A title", rocks=P.get("rocks") or {"ROCK1": {"density": 1.0}})))
    pl.put(f, src)
    if not any(l.startswith(("ENDCY", "ENDFI")) for l in tio.read_text(src).split("\n")):
        return None
    pl.put("MESH", prepared(pool, "p_MESH", lambda g: toughio.write_mesh(g, pool.m, file_format="tough")))
    names = [f, "MESH"]
    if rng.random() < 0.5:
        pl.put("INCON", prepared(pool, "p_INCON", lambda g: toughio.write_input(g, {"initial_conditions": pool.state}, block="incon")))
        names.append("INCON")
    elif os.path.exists(pl.path("INCON")):
        os.remove(pl.path("INCON"))
    g = stem(rng)
    return run(toughio._cli.merge, [spell(rng, pl, pl.path(f)), spell(rng, pl, pl.path(g))]), [g], names


def x_co2tab(pool, pl, rng):
    d = rng.choice([".", "t " + stem(rng)])
    if d != ".":
        os.makedirs(pl.path(d))
    names = [os.path.normpath(os.path.join(d, "CO2TAB"))]
    return run(toughio._cli.co2tab, [spell(rng, pl, pl.path(d))]), names, []


READS = {k: v for k, v in list(globals().items()) if k.startswith("r_")}
WRITERS = {k: v for k, v in list(globals().items()) if k.startswith("w_")}
COMMANDS = {k: v for k, v in list(globals().items()) if k.startswith("x_")}


def make_pool(case):
    pool = c06.Pool("c27|%s|%s|%s|%d" % (case.seed, case.tier, case.family, case.index), case.subdir("pool"))
    with tio.quiet():
        pool.ntimes = len(toughio.read_output(pool.listing))
    return pool


def relatives(rng, pl, names, reads):
    """Files whose names resemble those a call works on (earlier runs, backups, other formats)."""
    for n in names + reads:
        d, b = os.path.split(pl.path(n))
        h, e = os.path.splitext(b)
        for x in (h + "_9" + e, h + "_1" + e, h + "_01" + e, b + "~", b + ".bak", b + ".tmp", b + ".orig", h + ".tmp", h + ".old", "." + b, h + ".h5", h + ".xmf", h, b + "_2",
                  h + rng.choice([".csv", ".vtk", ".json", ".pickle", ".tec"]), "tmp_" + b, "#" + b + "#"):
            p = os.path.join(d, x)
            if rng.random() < 0.35 and x and not os.path.lexists(p) and p not in [os.path.normpath(pl.path(k)) for k in names + reads]:
                tio.write_text(p, "a relative of %s\n" % b)


def contents(pl, names):
    out = {}
    for n in names:
        p = pl.path(n)
        if not os.path.isfile(p):
            out[n] = None
        elif n.endswith(".h5"):
            with h5py.File(p, "r") as h:
                out[n] = sorted((k, h[k][()].tobytes(), str(h[k].dtype), h[k].shape) for k in h)
        elif n.endswith(".xdmf"):
            # the XML names its data file, which is named after the file itself
            out[n] = tio.contents(p)
        else:
            out[n] = tio.contents(p)
    return out


def old_file(rng, path, pool):
    """Something that was there before, usually longer than what is to be written."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    b = rng.choice([b"old\n" * 5000, b"", b"INCON\n", b"\x00\xff" * 3000, tio.read_bytes(pool.listing)])
    with open(path, "wb") as f:
        f.write(b)


def attempt(pl, fn):
    """(kind, image, result, audit log)"""
    old = os.getcwd()
    os.chdir(pl.cwd)
    x = None
    try:
        with audited() as a:
            try:
                x = fn()
                kind = "value"
            except (MemoryError, AssertionError):
                raise
            except OSError as e:
                if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
                    raise
                kind, msg = "raised", type(e).__name__
            except (Exception, SystemExit) as e:
                kind, msg = "raised", "%s(%s)" % (type(e).__name__, str(e)[:200])
    finally:
        os.chdir(old)
    return kind, (c06.image(x) if kind == "value" else msg), x, a.log


def judge_log(case, what, log, pl, names, before):
    """Nothing that exists beside the files to be written may be opened for writing or removed, even for a moment."""
    allowed = {os.path.realpath(pl.path(n)) for n in names}
    seen = set()
    for event, p in log:
        if event == "read":
            continue
        seen.add(event)
        if not os.path.isabs(p):
            case.check(False, "side-effect", lambda: "%s did %s %s" % (what, event, p))
        r = os.path.realpath(p)
        if r in allowed or p.startswith(("/dev/", "/proc/")) or p.endswith(".pyc"):
            continue
        rel = os.path.relpath(p, pl.top)
        case.check(rel not in before, "foreign-write", lambda: "%s did %s on %s, which it was not asked to write" % (what, event, rel))
        case.check(not os.path.lexists(p), "left-behind", lambda: "%s did %s on %s and left it" % (what, event, p))
    case.count("audited")
    return seen


def twice(case, ops, kind):
    """The same call in a crowded folder and in one that holds only its own files."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    pool = make_pool(case)
    name = rng.choice(sorted(ops))
    folder, seed, oldseed = rng.choice(FOLDERS), rng.randrange(10 ** 9), rng.randrange(10 ** 9)
    replaced = rng.random() < 0.5
    got = []
    for crowded in (True, False):
        pl = Place(case.subdir("crowd" if crowded else "alone"), folder, crowded, random.Random(oldseed))
        job = ops[name](pool, pl, random.Random(seed))
        if job is None:
            return
        fn, names, reads = job
        if set(names) & set(reads):
            return
        if crowded:
            relatives(rng, pl, names, reads)
        if crowded and replaced:
            for n in names:
                old_file(rng, pl.path(n), pool)
        if not crowded:
            for n in names:
                if os.path.isfile(pl.path(n)):
                    os.remove(pl.path(n))
        what = "%s in %r" % (name, folder)
        before, fds = tree(pl.top), descriptors(pl.top)
        src = tree(pool.src)
        k, img, x, log = attempt(pl, fn)
        after = tree(pl.top)
        now = contents(pl, names)
        judge_log(case, what, log, pl, names, before)
        case.check(k == "value", "failed", lambda: "%s (files %r): %s" % (what, names + reads, img))
        want = {os.path.normpath(os.path.join(folder, n)) for n in names}
        case.count("elsewhere", int(pl.cwd != pl.dir))
        for p in sorted(set(before) | set(after)):
            if p in want:
                continue
            case.check(p in after, "removed", lambda: "%s removed %r" % (what, p))
            case.check(p in before, "created", lambda: "%s created %r" % (what, p))
            case.check(before[p] == after[p], "changed", lambda: "%s changed %r" % (what, p))
        case.check(tree(pool.src) == src, "changed", lambda: "%s changed a file elsewhere" % what)
        for n in names:
            case.check(now[n] is not None, "not-written", lambda: "%s did not write %r" % (what, n))
        left = descriptors(pl.top)
        if left != fds:
            gc.collect()
            left = descriptors(pl.top)
        case.check(left == fds, "left-open", lambda: "%s left open %r" % (what, left))
        again = contents(pl, names)
        case.check(again == now, "late", lambda: "%s had not finished writing when it returned" % what)
        if name == "x_co2tab":
            data = tio.read_bytes(os.path.join(os.path.dirname(toughio.__file__), "data", "CO2TAB"))
            case.check(now[names[0]] == data, "content", "CO2TAB is not the packaged file")
        got.append((img, now, names))
        if reads:
            for n in reads:
                p = pl.path(n)
                with open(p, "r+b") as f:
                    size = os.path.getsize(p)
                    f.write(b"#" * size)
            img2 = c06.image(x)
            case.check(img2 == img, "result-follows-file", lambda: "the result of %s changes when %r is overwritten: %s" % (what, reads, c06.diff(repr(img), repr(img2))))
            for n in reads:
                os.remove(pl.path(n))
            case.check(c06.image(x) == img, "result-follows-file", lambda: "the result of %s changes when %r is removed" % (what, reads))
            case.count("independent")
    (i1, f1, n1), (i2, f2, n2) = got
    case.check(n1 == n2, "harness", lambda: "%r %r" % (n1, n2))
    case.check(i1 == i2, "depends-on-folder", lambda: "%s gives another result beside other files: %s" % (name, c06.diff(repr(i1), repr(i2))))
    for n in n1:
        case.check(f1[n] == f2[n], "depends-on-folder", lambda: "%s writes another %r over an older file or beside other files (%r / %r bytes)" % (
            name, n, len(f1[n] or ""), len(f2[n] or "")))
    case.count(kind)
    case.count("op:" + name)
    case.count("replaced", int(replaced and bool(n1)))
    case.count("companion", int(any(n.endswith(".h5") or n == "INCON" for n in n1)))
    case.count("numbered", int(len(n1) > 1 and n1[0].endswith("_1" + os.path.splitext(n1[0])[1])))
    case.shape(name, folder, tuple(n1), replaced)
    case.note = {"call": name, "folder": folder, "files written": n1, "over older files": replaced}


def reads(case):
    twice(case, READS, "read")


def writes(case):
    twice(case, WRITERS, "written")


def commands(case):
    twice(case, COMMANDS, "command")


# --- calls that fail -----------------------------------------------------------------------
def failing(case):
    """A call that fails leaves every file it was not to write as it was, makes no folder and leaves no file open."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    pool = make_pool(case)
    folder = rng.choice(FOLDERS)
    pl = Place(case.subdir("crowd"), folder, True, random.Random(rng.randrange(10 ** 9)))
    how = rng.choice(["no folder", "no folder", "missing", "missing", "bad", "is folder"])
    names = []
    if how == "no folder":
        name = rng.choice(["w_input", "w_output", "w_mesh", "w_series", "w_incon"] + ["x_save2incon", "x_extract", "x_export", "x_co2tab"])
        g = pl.path("absent/" + stem(rng))
        pl.put("S1", pool.save)
        pl.put("S2", pool.listing)
        pl.put("S3", pool.mesh_text)
        pl.put("S4.csv", prepared(pool, "p_csv", lambda f: toughio.write_output(f, pool.outs, file_format="csv")))
        pl.put("m.pickle", prepared(pool, "p_m.pickle", lambda f: toughio.write_mesh(f, pool.m, file_format="pickle")))
        cd = [{"a": np.arange(pool.m.n_cells) * 1.0}]
        fn = {"w_input": lambda: toughio.write_input(g + rng.choice(["", ".json"]), pool.P[0]),
              "w_output": lambda: toughio.write_output(g, pool.outs, file_format=rng.choice(["csv", "tecplot", "petrasim"])),
              "w_mesh": lambda: toughio.write_mesh(g, pool.m, file_format=rng.choice(["tough", "flac3d", "tecplot", "avsucd", "pickle", "vtk", "vtu"])),
              "w_incon": lambda: with_state(pool).write_incon(g),
              "w_series": lambda: toughio.write_time_series(g + ".xdmf", pool.m.points, pool.m.cells, cell_data=cd),
              "x_save2incon": run(toughio._cli.save2incon, [pl.path("S1"), g]),
              "x_extract": run(toughio._cli.extract, [pl.path("S2"), pl.path("S3"), "-o", g]),
              "x_export": run(toughio._cli.export, [pl.path("S4.csv"), "-m", pl.path("m.pickle"), "-o", g]),
              "x_co2tab": run(toughio._cli.co2tab, [pl.path("absent")])}[name]
    elif how in ("missing", "is folder"):
        name = rng.choice(["input", "output", "history", "mesh", "series", "save2incon", "extract", "extract2", "export", "export2", "merge", "json", "attach"])
        g = pl.path("nothing here") if how == "missing" else pl.path("sub")
        o = pl.path(stem(rng))
        pl.put("S2", pool.listing)
        pl.put("S3", pool.mesh_text)
        pl.put("S4.csv", prepared(pool, "p_csv", lambda f: toughio.write_output(f, pool.outs, file_format="csv")))
        fn = {"input": lambda: toughio.read_input(g), "json": lambda: toughio.read_input(g, file_format="json"),
              "output": lambda: toughio.read_output(g), "history": lambda: toughio.read_history(g),
              "mesh": lambda: toughio.read_mesh(g, file_format=rng.choice(["tough", "flac3d", "tecplot", "avsucd", "pickle"])),
              "series": lambda: toughio.read_time_series(g), "attach": lambda: pool.m.read_output(g),
              "save2incon": run(toughio._cli.save2incon, [g, o]), "extract": run(toughio._cli.extract, [g, pl.path("S3"), "-o", o]),
              "extract2": run(toughio._cli.extract, [pl.path("S2"), g, "-o", o]), "export": run(toughio._cli.export, [g, "-o", o]),
              "export2": run(toughio._cli.export, [pl.path("S4.csv"), "-m", g, "-o", o]), "merge": run(toughio._cli.merge, [g, o])}[name]
    else:
        name = rng.choice(["input", "output", "history", "mesh", "save2incon", "extract", "extract2", "export", "merge", "attach"])
        text = rng.choice(["\x00\x01\x02", "hello\nworld\n", "1 2 3\n", "<xml>", "{", "no such thing\n" * 50])
        g = tio.write_text(pl.path("bad" + rng.choice(["", ".dat", ".csv"])), text)
        o = pl.path(stem(rng))
        pl.put("S2", pool.listing)
        pl.put("S3", pool.mesh_text)
        fn = {"input": lambda: toughio.read_input(g, file_format="tough"), "output": lambda: toughio.read_output(g), "history": lambda: toughio.read_history(g),
              "mesh": lambda: toughio.read_mesh(g, file_format=rng.choice(["tough", "flac3d", "tecplot", "avsucd", "pickle"])),
              "save2incon": run(toughio._cli.save2incon, [g, o]), "extract": run(toughio._cli.extract, [g, pl.path("S3"), "-o", o]),
              "extract2": run(toughio._cli.extract, [pl.path("S2"), g, "-o", o]), "export": run(toughio._cli.export, [g, "-o", o]),
              "merge": run(toughio._cli.merge, [g, o]), "attach": lambda: pool.m.read_output(g)}[name]
    what = "%s (%s)" % (name, how)
    before, fds, src = tree(pl.top), descriptors(pl.top), tree(pool.src)
    with tio.quiet():
        k, img, x, log = attempt(pl, fn)
    after = tree(pl.top)
    judge_log(case, what, log, pl, names, before)
    must = how in ("no folder", "missing") or name in ("save2incon", "extract", "extract2", "export", "export2", "merge")
    case.check(k == "raised" or not must, "not-refused", lambda: "%s was accepted: %.200r" % (what, img))
    for p in sorted(set(before) | set(after)):
        case.check(p in after, "removed", lambda: "%s removed %r" % (what, p))
        case.check(p in before, "created", lambda: "%s created %r" % (what, p))
        case.check(before[p] == after[p], "changed", lambda: "%s changed %r" % (what, p))
    case.check(tree(pool.src) == src, "changed", lambda: "%s changed a file elsewhere" % what)
    del x
    left = descriptors(pl.top)
    if left != fds:
        gc.collect()
        left = descriptors(pl.top)
    case.check(left == fds, "left-open", lambda: "%s left open %r" % (what, left))
    case.count("failed", int(k == "raised"))
    case.count("how:" + how)
    case.shape(name, how, folder, k)
    case.note = {"call": name, "how": how, "outcome": str(img)[:80]}


# --- a full disk ---------------------------------------------------------------------------
def full(case):
    """A call that cannot write all of a file says so; nothing else is touched, and the call succeeds once there is room."""
    logging.disable(logging.CRITICAL)
    rng = case.rng
    pool = make_pool(case)
    ops = dict(WRITERS, **COMMANDS)
    name = rng.choice(sorted(ops))
    seed, folder = rng.randrange(10 ** 9), rng.choice(FOLDERS)
    pl = Place(case.subdir("crowd"), folder, True, random.Random(rng.randrange(10 ** 9)))
    job = ops[name](pool, pl, random.Random(seed))
    if job is None or set(job[1]) & set(job[2]) or any(n.endswith((".xdmf", ".h5")) for n in job[1]):  # HDF5 writes when it pleases
        return
    fn, names, reads = job
    for n in names:
        if os.path.exists(pl.path(n)):
            os.remove(pl.path(n))
    k, img, x, log = attempt(pl, fn)
    case.check(k == "value", "failed", lambda: "%s: %s" % (name, img))
    want = contents(pl, names)
    most = max(os.path.getsize(pl.path(n)) for n in names)
    for n in names:
        os.remove(pl.path(n))
    if not most:
        return
    room = rng.choice([0, most - 1, rng.randint(0, most - 1), max(0, most - rng.randint(1, 200))])
    relatives(rng, pl, names, reads)
    before, fds, src = tree(pl.top), descriptors(pl.top), tree(pool.src)
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (room, old[1]))
    try:
        k, img, x, log = attempt(pl, fn)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
    what = "%s with room for %d of %d bytes" % (name, room, most)
    after = tree(pl.top)
    case.check(k == "raised", "silent", lambda: "%s returned without a word; sizes %r" % (what, [os.path.getsize(pl.path(n)) for n in names if os.path.exists(pl.path(n))]))
    judge_log(case, what, log, pl, names, before)
    mine = {os.path.normpath(os.path.join(folder, n)) for n in names}
    for p in sorted((set(before) | set(after)) - mine):
        case.check(before.get(p) == after.get(p), "changed", lambda: "%s changed %r" % (what, p))
    case.check(tree(pool.src) == src, "changed", lambda: "%s changed a file elsewhere" % what)
    del x
    left = descriptors(pl.top)
    if left != fds:
        gc.collect()
        left = descriptors(pl.top)
    case.check(left == fds, "left-open", lambda: "%s left open %r" % (what, left))
    k, img, x, log = attempt(pl, fn)
    case.check(k == "value", "failed", lambda: "%s, then again with room enough: %s" % (what, img))
    case.check(contents(pl, names) == want, "content", lambda: "%s, then again with room enough: another file" % what)
    case.count("full")
    case.count("op:" + name)
    case.shape(name, tuple(names), room == 0, room == most - 1)
    case.note = {"call": name, "room": room, "of": most}


SCALE = 2
FAMILIES = {"full": (full, 400, 4000), "reads": (reads, 700, 6000), "writes": (writes, 700, 6000), "commands": (commands, 500, 5000), "failing": (failing, 500, 5000)}
