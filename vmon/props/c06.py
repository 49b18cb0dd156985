"""C06 - calls leave their arguments alone and do not depend on earlier calls."""
import copy
import hashlib
import logging
import os
import pickle
import random
import re
import shutil
import struct
import sys
import tempfile
import traceback

import h5py  # noqa: F401  loaded here rather than in every forked process
import meshio
import numpy as np
import pyvista  # noqa: F401
import scipy.spatial  # noqa: F401
import toughio

from vmon import core
from vmon.lib import gendeck, genmesh, genout, listing, tio
from vmon.props import c13, c20, c22, c23, c24

RULE = ("Case = history of 4 to 14 calls of the whole public API (inputs, outputs, meshes, mesh makers, models, commands; about a fifth of them "
        "made to fail) sharing the same parameters, results, meshes, models and files. Every argument and file is imaged before and after each "
        "call; every result is compared with the one the same call gives in a process where it is the first one (forked from a process that "
        "made no call); every result is imaged again at the end, after later calls and after other results were overwritten in place. "
        "In the family of interruptions, calls are stopped (KeyboardInterrupt) at a seeded source line of the library, and all the same is checked. "
        "Distinct = sequence of operations.")
ASSUMPTIONS = ["calls that edit a mesh in place by contract are made on a copy", "properties, conversions, Mesh and triangulate may hold the arrays they are given"]
REACH = {"compared": 2000, "raised": 200, "kept": 1500, "interrupted": 200, "scribbled": 300}
CASE_CPU_LIMIT = 200


# --- images --------------------------------------------------------------------------------
def image(x):
    if isinstance(x, toughio.Mesh):
        return ("Mesh", c20.image(x), tio.snapshot([x.point_sets, x.cell_sets]))
    if isinstance(x, meshio.Mesh):
        return ("meshio", c22.meshio_image(x))
    if type(x).__name__ == "UnstructuredGrid":
        return ("pyvista", c22.pv_image(x))
    if hasattr(x, "parameters") and hasattr(x, "id") and callable(x):
        return ("model", type(x).__name__, x.id, tio.snapshot(list(x.parameters)), x.name)
    if isinstance(x, dict):
        return ("dict", [(repr(k), image(v)) for k, v in x.items()])
    if isinstance(x, toughio.Output):
        return ("Output", [image(v) for v in x])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [image(v) for v in x])
    return tio.snapshot(x)


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()


# --- what the calls share ------------------------------------------------------------------
class Pool(object):
    """Arguments made by the harness from the seed of the case only."""

    def __init__(self, key, top):
        rng = random.Random(key)
        self.top = top
        self.src = os.path.join(top, "src")
        os.makedirs(self.src)
        self.n = 0
        self.P = [gendeck.gen_params(rng) for _ in range(2)]
        self.m, _ = genmesh.mesh(rng, dims=[rng.choice([1, 2, 2, 3]) for _ in range(3)], data=True)
        self.flat = toughio.Mesh(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 2.0], [0.0, 2.0], [2.5, 1.0]]),
                                 [("quad", np.array([[0, 1, 2, 3]])), ("triangle", np.array([[1, 4, 2]]))])
        self.flat.add_cell_data("material", np.array([1, 2]))
        self.flat.field_data["ROCK1"] = np.array([1, 2])
        self.flat.field_data["sand"] = np.array([2, 2])
        labs = [str(x) for x in c23.expected(self.m.n_cells, self.m.label_length or 5)]
        order = list(labs) if rng.random() < 0.4 else [labs[i] for i in c24.permuted(rng, len(labs))]
        self.labels = order
        self.outs = [o._replace(labels=np.array(order)) for o in genout.gen(rng, "element", "XYZ", n=len(labs))]
        self.conn = genout.gen(rng, "connection", "XYZ", n=3)
        self.state = {l: {"values": [genout.val(rng) for _ in range(2)]} for l in order}
        S = listing.render(rng, labels=order)
        self.listing = self.put("OUTPUT.out", S["text"])
        self.hasconn = bool(S["connections"])
        self.save = self.put("SAVE", c24.make_save(rng, order)[0])
        self.mesh_text = self.put("MESH", c13.mesh_text(rng, order, len(order[0]))[0])
        self.hist = self.put("FOFT", "TIME PRES TEMP\n" + "".join(" %.5E %.5E %.3f\n" % (i, rng.uniform(1, 9e7), rng.uniform(1, 99)) for i in range(5)))
        self.bad = self.put("BAD", rng.choice(["hello\n", "ROCKS\nROCK1\n", "", "ELEME\nA11 1    1\n"]))
        self.mio = meshio.Mesh(np.array(self.m.points), [(c.type, np.array(c.data)) for c in self.m.cells],
                               cell_data={"a": [np.arange(len(c.data), dtype=float) for c in self.m.cells]}, point_data={"u": np.arange(self.m.n_points) * 0.5})
        self.points = np.array([[rng.uniform(0, 9), rng.uniform(0, 9)] for _ in range(8)])
        self.grid = np.array([[x, y, z] for x in (0.5, 1.5, 3.0) for y in (1.0, 2.0) for z in (-1.0, 1.0)])
        self.steps = [1.0, 2.0, 0.5]
        self.sat = np.array(sorted([0.0, 1.0] + [rng.random() for _ in range(6)]))
        self.rp = toughio.relative_permeability.vanGenuchtenMualem(0.5, 0.2, 1.0, 0.05)
        self.cap = toughio.capillarity.vanGenuchten(0.4, 0.05, 1e-4, 1e6, 1.0)
        self.kw = {"material_name": {"ROCK1": "rockB"}, "order": list(self.P[0].get("rocks", {}))}

    def put(self, name, text):
        return tio.write_text(os.path.join(self.src, name), text)

    reuse = False

    def new(self, name):
        """A name of a file that does not exist yet (or that exists no longer)."""
        if self.reuse:
            d = os.path.join(self.top, "out0")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            return os.path.join(d, name)
        self.n += 1
        d = os.path.join(self.top, "out%d" % self.n)
        os.makedirs(d)
        return os.path.join(d, name)

    def image(self):
        return [image(self.P), image(self.m), image(self.flat), image(self.outs), image(self.conn), image(self.state), self.labels, image(self.mio),
                tio.snapshot([self.points, self.grid, self.steps, self.sat]), image(self.rp), image(self.cap), tio.snapshot(self.kw)]

    def files(self):
        return {n: tio.read_bytes(os.path.join(self.src, n)) for n in sorted(os.listdir(self.src))}


PARTS = ["parameters", "mesh", "plane mesh", "outputs", "connection outputs", "initial conditions", "labels", "meshio mesh", "arrays",
         "relative permeability", "capillarity", "options"]


def world():
    """Global state that calls have no business with."""
    return (os.getcwd(), dict(os.environ), np.geterr(), repr(np.random.get_state()[1][:5]), repr(random.getstate())[:200], list(sys.path),
            np.get_printoptions(), toughio.read_input.__defaults__, toughio.write_input.__defaults__)


# --- operations ----------------------------------------------------------------------------
def text_of(f):
    """Files written, without comments of FLAC3D grids (they give the time of day)."""
    d = os.path.dirname(f)
    return {n: tio.contents(os.path.join(d, n)) for n in sorted(os.listdir(d))}


def op_write_input(p, r):
    f = p.new(r.choice(["INFILE", "x.json", "y"]))
    kw = {}
    if not f.endswith(".json") and r.random() < 0.4:
        kw["block"] = r.choice(["all", "gener", "mesh", "incon", "rocks"])
    toughio.write_input(f, r.choice(p.P), **kw)
    return text_of(f)


def op_write_bad(p, r):
    P = copy.deepcopy(r.choice(p.P))
    k = r.choice(["title", "rocks", "options", "generators", "elements"])
    P[k] = r.choice([3, {"a": 1}, [{"label": 3}], "x", [1]])
    f = p.new("INFILE")
    toughio.write_input(f, P)
    return text_of(f)


def op_roundtrip(p, r):
    f = p.new(r.choice(["INFILE", "x.json"]))
    toughio.write_input(f, r.choice(p.P))
    return toughio.read_input(f)


def op_read_input(p, r):
    f = r.choice([p.save, p.mesh_text, p.bad, p.listing])
    return toughio.read_input(f, **r.choice([{}, {"label_length": r.choice([5, 6])}]) if r.random() < 0.3 else {})


def op_write_output(p, r):
    fmt = r.choice(["csv", "csv", "tecplot", "petrasim", "petrasim", "tough"])
    f = p.new("OUT")
    o = r.choice([p.outs, p.outs[0], p.conn])
    toughio.write_output(f, o, file_format=fmt)
    return text_of(f)


def op_read_output(p, r):
    f = r.choice([p.listing, p.listing, p.save, p.bad])
    kw = {}
    if r.random() < 0.4:
        kw["labels_order"] = list(p.labels)[::-1]
    if f == p.listing and p.hasconn and r.random() < 0.4:
        kw["connection"] = True
    return toughio.read_output(f, **kw)


def op_convert_output(p, r):
    f = p.new("OUT")
    toughio.write_output(f, p.outs, file_format=r.choice(["csv", "petrasim", "tecplot"]))
    return toughio.read_output(f)


def op_history(p, r):
    return toughio.read_history(r.choice([p.hist, p.hist, p.bad]))


def op_write_mesh(p, r):
    n = r.choice(["MESH", "m.dat", "m.f3grid", "m.vtk", "m.vtu", "m.pickle", "m.avs"])
    f = p.new(n)
    m = r.choice([p.m, p.m, p.flat])
    kw = {}
    if n == "MESH":
        kw = {"file_format": "tough"}
        if r.random() < 0.5:
            kw["nodal_distance"] = r.choice(["line", "orthogonal"])
        if r.random() < 0.5:
            kw["material_name"] = p.kw["material_name"]
        if r.random() < 0.3:
            kw["incon"] = True
    if n == "m.avs":
        kw = {"file_format": "avsucd"}
    if r.random() < 0.5:
        m.write(f, **kw)
    else:
        toughio.write_mesh(f, m, **kw)
    return {k: v for k, v in text_of(f).items() if not k.endswith(".pickle")}


def op_read_mesh(p, r):
    n = r.choice(["m.dat", "m.f3grid", "m.vtk", "m.pickle"])
    f = p.new(n)
    toughio.write_mesh(f, p.m)
    return toughio.read_mesh(f)


PROPS = ["volumes", "centers", "labels", "faces", "face_areas", "face_normals", "connections", "qualities", "materials", "cells_dict", "n_cells", "n_points"]


def op_property(p, r):
    return getattr(p.m, r.choice(PROPS))


def op_to_meshio(p, r):
    return r.choice([p.m, p.flat]).to_meshio()


def op_to_pyvista(p, r):
    return r.choice([p.m, p.flat]).to_pyvista()


def op_from_meshio(p, r):
    return toughio.from_meshio(p.mio)


def op_from_pyvista(p, r):
    return toughio.from_pyvista(p.m.to_pyvista())


def op_extrude(p, r):
    m = r.choice([p.flat, p.flat, p.m])
    return m.extrude_to_3d(height=r.choice([1.0, [1.0, 2.0], (0.5,), np.array([1.0, 1.5])]), axis=r.choice([2, 2, 0]), inplace=False)


def op_prune(p, r):
    return p.m.prune_duplicates(inplace=False)


def op_edit(p, r):
    m = copy.deepcopy(p.m)
    for _ in range(r.randint(1, 4)):
        k = r.choice(["add", "mat", "c2p", "p2c", "prune", "out", "len", "bad", "point"])
        if k == "add":
            m.add_cell_data("new", np.arange(m.n_cells, dtype=float))
        elif k == "point":
            m.add_point_data("pnew", np.arange(m.n_points, dtype=float))
        elif k == "mat":
            m.set_material(r.choice(["other", "ROCK1", "x"]), r.sample(range(m.n_cells), r.randint(1, m.n_cells)))
        elif k == "c2p":
            m.cell_data_to_point_data()
        elif k == "p2c":
            m.point_data_to_cell_data()
        elif k == "prune":
            m.prune_duplicates()
        elif k == "out":
            m.read_output(p.outs if r.random() < 0.7 else p.listing, time_step=r.choice([-1, 0]))
        elif k == "len":
            m.label_length = r.choice([5, 6, None])
        elif k == "bad":
            m.add_cell_data("bad", [1.0, 2.0] * m.n_cells)
    return m


def op_near(p, r):
    return p.m.near(r.choice([[0.0, 1.0, 2.0], p.grid, list(map(list, p.grid))]))


def op_box(p, r):
    return p.m.filter.box(x0=r.choice([None, 0.0]), dx=None) if r.random() < 0.3 else p.m.filter.box(-1e9, 0.0, dx=1e9 + r.uniform(-5, 5), dy=r.choice([None, 3.0]))


def op_series(p, r):
    f = p.new("s.xdmf")
    cd = [{"a": np.arange(p.m.n_cells) * float(i)} for i in range(3)]
    toughio.write_time_series(f, p.m.points, p.m.cells, cell_data=cd, time_steps=r.choice([[3.0, 1.0, 2.0], (0.0, 5.0, 1.0), None, np.array([2.0, 4.0, 1.0]), [1.0]]))
    a, b, c, d, e = toughio.read_time_series(f)
    return [np.asarray(a), [(x.type, np.asarray(x.data)) for x in b], c, d, [float(t) for t in e]]


def op_maker(p, r):
    mm = toughio.meshmaker
    k = r.choice(["grid", "cyl", "tri", "vox", "bad"])
    if k == "grid":
        return mm.structured_grid(p.steps, p.steps[:2], r.choice([[1.0], p.steps]), layer=r.random() < 0.5, origin=r.choice([None, [1.0, 2.0, 3.0]]))
    if k == "cyl":
        return mm.cylindric_grid(p.steps, p.steps[:2], layer=r.random() < 0.5)
    if k == "tri":
        return copy.deepcopy(mm.triangulate(p.points))  # the mesh may hold the points given
    if k == "vox":
        return mm.voxelize(p.grid, [0.0, 0.5, -2.0], layer=r.random() < 0.5)
    return mm.structured_grid(p.steps, "a", [1.0])


def op_model(p, r):
    if r.random() < 0.5:
        return list(p.rp(p.sat)) + [p.rp.parameters, p.rp.name, p.rp.id, repr(p.rp)]
    return [p.cap(p.sat), p.cap.parameters, p.cap.name, p.cap.id, repr(p.cap)]


def op_new_model(p, r):
    R, C = toughio.relative_permeability, toughio.capillarity
    k = r.choice(["grant", "corey", "linear", "verma", "pickens", "fatt", "vg", "lin", "pick", "trust", "milly", "bad"])
    x = round(r.uniform(0.05, 0.3), 3)
    return {"grant": lambda: R.Grant(x, 0.1), "corey": lambda: R.Corey(x, 0.1), "linear": lambda: R.Linear(x, 0.1, 0.9, 0.8), "verma": lambda: R.Verma(),
            "pickens": lambda: R.Pickens(2.0), "fatt": lambda: R.FattKlikoff(x), "vg": lambda: C.vanGenuchten(0.4, x, 1e-4, 1e6, 1.0),
            "lin": lambda: C.Linear(1e6, x, 0.9), "pick": lambda: C.Pickens(1e5, x, 0.99, 1.5), "trust": lambda: C.TRUST(1e5, x, 1.2, 1e4, 1e6),
            "milly": lambda: C.Milly(x), "bad": lambda: R.Corey(2.0, "a")}[k]()


def quiet(fn, argv, d):
    old = os.getcwd()
    os.chdir(d)
    try:
        with tio.quiet() as out:
            fn(argv)
    finally:
        os.chdir(old)
    return out.getvalue().replace(d, "<dir>")


def op_cli(p, r):
    k = r.choice(["save2incon", "extract", "export", "bad", "merge"])
    f = p.new("RESULT")
    d = os.path.dirname(f)
    if k == "save2incon":
        quiet(toughio._cli.save2incon, [p.save, f] + r.choice([[], ["-r"]]), d)
    elif k == "extract":
        quiet(toughio._cli.extract, [p.listing, p.mesh_text, "-o", f] + r.choice([[], ["-s"], ["-f", "petrasim"], ["-c"]]), d)
    elif k == "export":
        src = os.path.join(d, "o.csv")
        toughio.write_output(src, p.outs)
        m = os.path.join(d, "m.pickle")
        toughio.write_mesh(m, p.m)
        quiet(toughio._cli.export, [src, "-m", m, "-o", f, "-f", r.choice(["vtk", "tecplot"])], d)
        os.remove(m)
    elif k == "merge":
        P = r.choice(p.P)
        toughio.write_input(os.path.join(d, "INFILE"), dict(P, title="x"))
        toughio.write_mesh(os.path.join(d, "MESH"), p.m, file_format="tough")
        if r.random() < 0.5:
            toughio.write_input(os.path.join(d, "INCON"), {"initial_conditions": p.state}, block="incon")
        quiet(toughio._cli.merge, [os.path.join(d, "INFILE"), os.path.join(d, "MERGED")], d)
    else:
        quiet(toughio._cli.extract, [p.listing, p.bad, "-o", f], d)
    return text_of(f)


def op_mesh_ctor(p, r):
    return toughio.Mesh(np.array(p.m.points), [(c.type, np.array(c.data)) for c in p.m.cells])


def op_incon_roundtrip(p, r):
    f = p.new("INCON")
    P = {"initial_conditions": p.state, "initial_conditions_order": r.choice([list(p.labels), tuple(p.labels)])}
    toughio.write_input(f, P, block="incon")
    return [text_of(f), toughio.read_input(f)]


def op_split(p, r):
    return [np.array(x) for x in p.m.split(np.arange(p.m.n_cells))]


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}
# results that may share arrays with what was given (properties of a mesh, conversions)
SHARED = {"property", "to_meshio", "from_meshio", "to_pyvista", "from_pyvista"}


def perform(pool, name, seed):
    """(kind, image of the result, result)"""
    r = random.Random(seed)
    try:
        x = OPS[name](pool, r)
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        msg = re.sub(r"out\d+", "out", str(e).replace(pool.top, "<top>"))
        return ("raised", (type(e).__name__, msg), None)
    return ("value", image(x), x)


# --- process that made no call -------------------------------------------------------------
class Zygote(object):
    def __init__(self):
        self.pid = os.getpid()
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        child = os.fork()
        if child == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2

    @staticmethod
    def send(fd, obj):
        b = pickle.dumps(obj)
        b = struct.pack("<Q", len(b)) + b
        while b:
            b = b[os.write(fd, b):]

    @staticmethod
    def recv(fd):
        def need(n):
            out = b""
            while len(out) < n:
                c = os.read(fd, n - len(out))
                if not c:
                    return None
                out += c
            return out
        h = need(8)
        if h is None:
            return None
        return pickle.loads(need(struct.unpack("<Q", h)[0]))

    def serve(self, r, w):
        import signal
        signal.setitimer(signal.ITIMER_PROF, 0)
        while True:
            job = self.recv(r)
            if job is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.send(w, first_call(*job))
                except BaseException:
                    self.send(w, ("harness", traceback.format_exc()))
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, *job):
        self.send(self.w, job)
        return self.recv(self.r)


def first_call(key, name, seed):
    top = tempfile.mkdtemp(prefix="vmon_first_")
    try:
        logging.disable(logging.CRITICAL)
        pool = Pool(key, top)
        kind, img, _ = perform(pool, name, seed)
        return (kind, digest(img), repr(img)[:60000])
    finally:
        shutil.rmtree(top, ignore_errors=True)


ZYGOTE = None


def zygote():
    global ZYGOTE
    if ZYGOTE is None or ZYGOTE.pid != os.getpid():
        ZYGOTE = Zygote()
    return ZYGOTE


def scribble(x, depth=0):
    """Overwrite a result in place."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind in "fc":
                x[...] = -12345.5
            elif x.dtype.kind in "iu":
                x[...] = 0
            elif x.dtype.kind == "U":
                x[...] = "?"
    elif isinstance(x, toughio.Mesh):
        for k in list(x.cell_data) + []:
            scribble(x.cell_data[k])
        for k in list(x.point_data):
            scribble(x.point_data[k])
        for k in list(x.field_data):
            scribble(x.field_data[k])
        x.cell_data.clear()
        x.field_data["scribble"] = np.array([99, 3])
        scribble(x.points)
        for c in x.cells:
            scribble(c.data)
    elif isinstance(x, meshio.Mesh):
        scribble(x.points)
        for c in x.cells:
            scribble(c.data)
        scribble(x.cell_data)
        scribble(x.point_data)
        scribble(x.field_data)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
        x["scribble"] = 1
    elif isinstance(x, toughio.Output):
        scribble(x.labels)
        scribble(x.data)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.append("scribble")


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%s / ...%s" % (a[max(0, i - 60):i + 100], b[max(0, i - 60):i + 100])


def history(case):
    logging.disable(logging.CRITICAL)
    z = zygote()
    rng = case.rng
    key = "%s|%s|%d" % (case.seed, case.tier, case.index)
    pool = Pool(key, case.subdir("h"))
    pool.reuse = rng.random() < 0.5  # later calls replace the files of earlier ones
    case.count("names reused", int(pool.reuse))
    n = rng.randint(4, 14)
    names = []
    kept = []
    weights = sorted(OPS)
    for i in range(n):
        # repeat operations often: the same call again, or the same kind of call
        if names and rng.random() < 0.25:
            name, seed = rng.choice(names)
        else:
            name, seed = rng.choice(weights), rng.randrange(10 ** 9)
        names.append((name, seed))
        before, files, w = pool.image(), pool.files(), world()
        kind, img, x = perform(pool, name, seed)
        after = pool.image()
        for part, a, b in zip(PARTS, before, after):
            case.check(a == b, "argument-changed", lambda: "%s changed the %s given to it: %s" % (name, part, diff(repr(a), repr(b))))
        case.check(pool.files() == files, "file-changed", lambda: "%s changed a file it was given to read" % name)
        case.check(world() == w, "global-state", lambda: "%s changed the state of the process: %s" % (name, diff(repr(w), repr(world()))))
        want = z.ask(key, name, seed)
        case.check(want is not None and want[0] != "harness", "harness", lambda: repr(want))
        case.check(want[0] == kind and want[1] == digest(img), "history", lambda: "%s after %r differs from the same call made first: %s" % (
            name, [a for a, _ in names[:-1]], diff(want[2], repr(img)[:60000])))
        case.count("compared")
        case.count("op:" + name)
        case.count("raised", int(kind == "raised"))
        if kind == "value":
            kept.append([name, img, x])
        if kept and rng.random() < 0.2:
            j = rng.randrange(len(kept))
            if kept[j][0] not in SHARED:
                scribble(kept[j][2])
                case.count("scribbled")
                for part, a, b in zip(PARTS, after, pool.image()):
                    case.check(a == b, "shared-with-argument", lambda: "overwriting the result of %s changed the %s: %s" % (kept[j][0], part, diff(repr(a), repr(b))))
                del kept[j]
    for name, img, x in kept:
        now = image(x)
        case.check(digest(now) == digest(img), "result-changed", lambda: "the result of %s was changed by later calls: %s" % (name, diff(repr(img), repr(now))))
        case.count("kept")
    case.shape(tuple(a for a, _ in names))
    case.note = [a for a, _ in names]


# --- interrupted calls -----------------------------------------------------------------------
SOURCE = os.path.join(core.REPO, "toughio") + os.sep


class Lines(object):
    """Count the lines of the library a call executes; interrupt it at one of them."""

    def __init__(self, stop=None):
        self.n, self.stop, self.where = 0, stop, None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.stop:
                self.where = "%s:%d" % (frame.f_code.co_filename[len(SOURCE):], frame.f_lineno)
                raise KeyboardInterrupt()
        return self.local

    def run(self, fn):
        def glob(frame, event, arg):
            return self.local if frame.f_code.co_filename.startswith(SOURCE) else None
        sys.settrace(glob)
        try:
            return fn()
        finally:
            sys.settrace(None)


def interrupted(case):
    """A call stopped at any line leaves its arguments alone and no trace in later calls."""
    logging.disable(logging.CRITICAL)
    z = zygote()
    rng = case.rng
    key = "i%s|%s|%d" % (case.seed, case.tier, case.index)
    pool = Pool(key, case.subdir("h"))
    names = []
    for i in range(rng.randint(1, 3)):
        name, seed = rng.choice(sorted(OPS)), rng.randrange(10 ** 9)
        L = Lines()
        L.run(lambda: perform(pool, name, seed))
        if not L.n:
            continue
        # often near the end, where results have begun to be written
        stop = rng.choice([rng.randint(1, L.n), max(1, L.n - rng.randint(0, 12)), rng.randint(max(1, L.n // 2), L.n)])
        before, files, w = pool.image(), pool.files(), world()
        S = Lines(stop)
        try:
            S.run(lambda: perform(pool, name, seed))
            stopped = False
        except KeyboardInterrupt:
            stopped = True
        what = "%s interrupted at line %s (%d of %d)" % (name, S.where, stop, L.n)
        for part, a, b in zip(PARTS, before, pool.image()):
            case.check(a == b, "argument-changed", lambda: "%s changed the %s given to it: %s" % (what, part, diff(repr(a), repr(b))))
        case.check(pool.files() == files, "file-changed", lambda: "%s changed a file it was given to read" % what)
        case.check(world() == w, "global-state", lambda: "%s changed the state of the process: %s" % (what, diff(repr(w), repr(world()))))
        again = [(name, seed)] + [(rng.choice(sorted(OPS)), rng.randrange(10 ** 9)) for _ in range(rng.randint(0, 2))]
        for nm, sd in again:
            kind, img, x = perform(pool, nm, sd)
            want = z.ask(key, nm, sd)
            case.check(want is not None and want[0] != "harness", "harness", lambda: repr(want))
            case.check(want[0] == kind and want[1] == digest(img), "history", lambda: "%s after %s differs from the same call made first: %s" % (
                nm, what, diff(want[2], repr(img)[:60000])))
        case.count("interrupted", int(stopped))
        names.append((name, S.where))
    case.shape(tuple(names))
    case.note = names


FAMILIES = {"history": (history, 600, 6000), "interrupted": (interrupted, 400, 5000)}
