"""C15 - the format of a file is the one asked for, or the one its name says."""
import logging
import os
import pathlib
import pickle
import traceback

import numpy as np
import toughio

from vmon.lib import gendeck, genmesh, genout, listing, tio
from vmon.props import c12, c20, c24

RULE = ("Case = parameters, results or a mesh written and read through every way of naming the same format (asked for, by extension in any case, "
        "misleading extension with the format asked for; bare, relative, absolute names, directories with dots and blanks, other working "
        "directory): same bytes and same result as the reference. Results are read under any name. Unknown formats, unknown extensions and "
        "file arguments that are not names must be refused with the directory untouched. Newly registered formats (one or several extensions, "
        "read-only, re-registered extensions, material key; also under the extension or the name of a built-in format) are used by name and extension and change nothing for the others. "
        "Distinct = kind x format x name x way.")
ASSUMPTIONS = ["the format of results is recognized from the contents of the file when they are read",
               "an input file whose name says nothing is in TOUGH format"]
REACH = {"input": 100, "output": 100, "mesh": 100, "refused": 100, "registered": 100, "undisturbed": 100, "override": 300, "history": 100, "shell names": 300}


def restore_cwd(fn):
    def f(case):
        logging.disable(logging.CRITICAL)
        old = os.getcwd()
        try:
            return fn(case)
        finally:
            os.chdir(old)
    f.__name__ = fn.__name__
    return f


def name(case, stem):
    """A way to name a file: (argument, absolute path); may change the working directory."""
    rng = case.rng
    d = case.subdir(rng.choice(["d", "a b", "run.json", "x.csv", "up.per/low", "é", "~", "$HOME", "a%20b", "[x]*"]))
    if rng.random() < 0.2 and not stem.startswith("."):  # names that a shell would make something else of
        stem = rng.choice(["~", "~root", "$HOME", "${PWD}", "%HOME%", "#1", "-x", "a;b", "{0}", "%s"]) + stem
        case.count("shell names")
    path = os.path.join(d, stem)
    k = rng.choice(["absolute", "bare", "relative", "dot", "below"])
    if k == "absolute":
        os.chdir(case.subdir("elsewhere"))
        return path, path
    os.chdir(d)
    if k == "bare":
        return stem, path
    if k == "dot":
        return "./" + stem, path
    if k == "below":
        os.chdir(os.path.dirname(d))
        return os.path.join(os.path.basename(d), stem), path
    os.chdir(case.subdir("elsewhere"))
    return os.path.relpath(path), path


def caps(rng, ext):
    return rng.choice([ext, ext, ext.upper(), ext.capitalize(), "".join(rng.choice([c, c.upper()]) for c in ext)])


@restore_cwd
def inputs(case):
    rng = case.rng
    P = gendeck.gen_params(rng)
    fmt = rng.choice(["tough", "json"])
    ref = case.path("reference")
    case.call("write_input", toughio.write_input, ref, P, file_format=fmt)
    want = tio.read_bytes(ref)
    got = tio.snapshot(case.call("read_input", toughio.read_input, ref, file_format=fmt))
    for _ in range(3):
        asked = rng.random() < 0.4
        if asked:
            stem = rng.choice(["INFILE", "x.json", "x.dat", "a.b.c", "MESH.json", "json", ".json", "x.JSON"])
            kw = {"file_format": fmt}
        elif fmt == "json":
            stem, kw = rng.choice(["x", "a.b", "INFILE", "tough"]) + caps(rng, ".json"), rng.choice([{}, {"file_format": None}])
        else:
            stem, kw = rng.choice(["INFILE", "x.dat", "x.json.txt", ".json", "json", "a b.inp", "x.jsonx", "flow.inp"]), rng.choice([{}, {"file_format": None}])
        arg, path = name(case, stem)
        case.call("write_input", toughio.write_input, arg, P, **kw)
        case.check(tio.contents(path) == want, "written", lambda: "%r %r: not the %s file" % (arg, kw, fmt))
        R = case.call("read_input", toughio.read_input, arg, **kw)
        case.check(tio.snapshot(R) == got, "read", lambda: "%r %r read differently" % (arg, kw))
        case.count("input")
        case.shape("input", fmt, stem, asked)
    case.note = {"format": fmt, "name": stem}


@restore_cwd
def outputs(case):
    rng = case.rng
    fmt = rng.choice(["csv", "tecplot", "petrasim"])
    kind = "connection" if fmt == "csv" and rng.random() < 0.3 else "element"
    outs = genout.gen(rng, kind, "XYZ")
    ref = case.path("reference")
    case.call("write_output", toughio.write_output, ref, outs, file_format=fmt)
    want = tio.read_bytes(ref)
    got = tio.snapshot(case.call("read_output", toughio.read_output, ref))
    for _ in range(3):
        ext = {"csv": ".csv", "tecplot": ".tec"}.get(fmt)
        asked = ext is None or rng.random() < 0.4
        if asked:
            stem, kw = rng.choice(["OUTPUT", "x.csv", "x.tec", "a.b.c", "SAVE", "x.TEC"]), {"file_format": fmt}
        else:
            stem, kw = rng.choice(["x", "a.b", "tecplot"]) + caps(rng, ext), rng.choice([{}, {"file_format": None}])
        arg, path = name(case, stem)
        case.call("write_output", toughio.write_output, arg, outs, **kw)
        case.check(tio.contents(path) == want, "written", lambda: "%r %r: not the %s file" % (arg, kw, fmt))
        case.check(tio.snapshot(case.call("read_output", toughio.read_output, arg)) == got, "read", lambda: "%r read differently" % (arg,))
        case.count("output")
        case.shape("output", fmt, stem, asked, kind)
    # histories under any name
    if rng.random() < 0.3:
        text = c12.render(rng)["text"]
        res = []
        for stem in rng.sample(["FOFT", "x.csv", "x.tec", "GOFT.json", "~", "~root"], 2):
            arg, path = name(case, stem)
            tio.write_text(path, text)
            res.append(tio.snapshot(case.call("read_history", toughio.read_history, arg)))
        case.check(res[0] == res[1], "read", "the name of a history file changes what is read")
        case.count("history")
    # results of a simulator under a misleading name
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            S = listing.render(rng)
            text, f = S["text"], "tough"
        else:
            text, f = c24.make_save(rng, genout.labels(rng, rng.choice([1, 4])))[0], "save"
        res = []
        for stem in rng.sample(["OUTPUT", "x.csv", "x.tec", "INFILE.json", "SAVE"], 2):
            arg, path = name(case, stem)
            tio.write_text(path, text)
            r = case.call("read_output", toughio.read_output, arg)
            case.check((r if f == "save" else r[-1]).format == f, "contents", lambda: "%r read as %r" % (arg, r[-1].format))
            res.append(tio.snapshot(r))
        case.check(res[0] == res[1], "read", "the name of a file changes the results")
        case.count("output")


FORMATS = {"tecplot": [".dat", ".tec"], "flac3d": [".f3grid"], "pickle": [".pickle", ".pkl"], "vtk": [".vtk"], "vtu": [".vtu"], "gmsh": [".msh"],
           "medit": [".mesh"], "abaqus": [".inp"], "xdmf": [".xdmf", ".xmf"], "avsucd": [".avs"], "ply": None, "stl": None, "tough": []}
NOBYTES = {"xdmf", "pickle", "avsucd", "gmsh"}


@restore_cwd
def meshes(case):
    rng = case.rng
    m, ref = genmesh.mesh(rng, data=rng.random() < 0.5)
    fmt = rng.choice([k for k, v in FORMATS.items() if v is not None])
    if fmt in ("medit", "abaqus", "gmsh"):
        m, ref = genmesh.mesh(rng, kind="hexa", data=False)
        while len(m.cells) > 1:
            m, ref = genmesh.mesh(rng, kind="hexa", data=False)
    d = case.subdir("ref")
    f = os.path.join(d, "reference" + (FORMATS[fmt] or [""])[0])
    case.call("write_mesh", toughio.write_mesh, f, m, file_format=fmt)
    want = tio.contents(f)

    def image(arg, **kw):
        with tio.quiet():
            x = case.call("read_mesh", toughio.read_mesh, arg, **kw)
        return c20.image(x) if hasattr(x, "cells") else tio.snapshot(x)

    got = image(f, file_format=fmt)
    for _ in range(3):
        asked = not FORMATS[fmt] or rng.random() < 0.4
        if asked:
            stem, kw = rng.choice(["MESH", "x.vtk", "x.dat", "a.b.c", "x.pickle", "x.f3grid"]), {"file_format": fmt}
        else:
            stem, kw = rng.choice(["x", "a.b", "mesh"]) + caps(rng, rng.choice(FORMATS[fmt])), rng.choice([{}, {"file_format": None}])
        arg, path = name(case, stem)
        case.call("write_mesh", *((toughio.write_mesh, arg, m) if rng.random() < 0.5 else (m.write, arg)), **kw)
        if fmt not in NOBYTES:
            case.check(tio.contents(path) == want, "written", lambda: "%r %r: not the %s file" % (arg, kw, fmt))
        case.check(image(arg, **kw) == got, "read", lambda: "%r %r read differently" % (arg, kw))
        case.count("mesh")
        case.shape("mesh", fmt, stem, asked)
    case.note = {"format": fmt, "name": stem}


def tree(top):
    out = {}
    for r, ds, fs in os.walk(top):
        for x in ds:
            out[os.path.join(r, x)] = None
        for x in fs:
            out[os.path.join(r, x)] = tio.read_bytes(os.path.join(r, x))
    return out


@restore_cwd
def refused(case):
    rng = case.rng
    what = rng.choice(["input", "output", "mesh"])
    if what == "input":
        x, w, r = gendeck.gen_params(rng), toughio.write_input, toughio.read_input
    elif what == "output":
        x, w, r = genout.gen(rng, "element", "XYZ"), toughio.write_output, None
    else:
        x, w, r = genmesh.mesh(rng, data=False)[0], toughio.write_mesh, toughio.read_mesh
    kind = rng.choice(["format", "format", "extension", "argument"])
    stem = rng.choice(["x", "x.json", "x.csv", "x.vtk", "MESH"])
    if kind == "extension":
        if what == "input":
            kind = "format"
        else:
            stem = rng.choice(["x.xyzzy", "noextension", "x.csv.bak"])
    arg, path = name(case, stem)
    exists = rng.random() < 0.6
    if exists:
        tio.write_text(path, "precious\n")
    top = os.path.dirname(case.path("x"))
    before = tree(top)
    snap = tio.snapshot(x) if what != "mesh" else c20.image(x)
    if kind == "format":
        fmt = rng.choice(["unknown", "JSON", "Tough", "vtk " if what == "mesh" else "vtk", ".json", "csvx", "xyzzy"])
        case.refused("write/" + what, ValueError if what == "input" else Exception, w, arg, x, file_format=fmt)
        if r and exists:
            case.refused("read/" + what, ValueError if what == "input" else (Exception, SystemExit), r, arg, file_format=fmt)
    elif kind == "extension":
        case.refused("write/" + what, Exception, w, arg, x)
        if r and exists:
            case.refused("read/" + what, (Exception, SystemExit), r, arg)
    else:
        bad = rng.choice([None, 3, arg.encode(), [arg], pathlib.Path(path), {"f": arg}])
        case.refused("write/" + what, TypeError, w, bad, x)
        case.refused("read/" + what, TypeError, r or toughio.read_output, bad)
    case.check(tree(top) == before, "touched", lambda: "refused call (%s %s %r) changed the directory" % (what, kind, arg))
    case.check((tio.snapshot(x) if what != "mesh" else c20.image(x)) == snap, "argument-changed", "a refused call changed its arguments")
    case.shape("refused", what, kind, stem, exists)


def builtin(case, d):
    """What the built-in formats make of the same things."""
    rng = case.rng
    os.makedirs(d)
    P, outs, m = case.P, case.outs, case.m
    out = []
    for n in ("a", "a.json"):
        f = os.path.join(d, n)
        case.call("write_input", toughio.write_input, f, P)
        out += [tio.read_bytes(f), tio.snapshot(case.call("read_input", toughio.read_input, f))]
    for n in ("a.csv", "a.tec"):
        f = os.path.join(d, n)
        case.call("write_output", toughio.write_output, f, outs)
        out += [tio.read_bytes(f), tio.snapshot(case.call("read_output", toughio.read_output, f))]
    for n in ("b.dat", "b.f3grid", "b.vtu", "b.pickle"):
        f = os.path.join(d, n)
        case.call("write_mesh", toughio.write_mesh, f, m)
        out += [c20.image(case.call("read_mesh", toughio.read_mesh, f))]
    return out


@restore_cwd
def registered(case):
    rng = case.rng
    case.P, case.outs, case.m = gendeck.gen_params(rng), genout.gen(rng, "element", "XYZ"), genmesh.mesh(rng, data=True)[0]
    before = builtin(case, case.path("before"))
    # names are unique to the case: registries cannot be emptied
    tag = "q%s%d" % (case.tier[0], case.index)
    fmt, exts = "vmon_" + tag, rng.sample(["." + tag, "." + tag + "z", ".z" + tag], rng.choice([1, 2, 3]))
    if rng.random() < 0.3:
        exts = [caps(rng, e) for e in exts]
    what = rng.choice(["input", "output", "mesh"])
    log = []
    store = {}
    readonly = rng.random() < 0.2

    def writer(filename, x, **kw):
        log.append(("w", filename, kw))
        store[os.path.abspath(filename)] = x
        tio.write_text(filename, "written by %s\n" % fmt)

    def reader(filename, **kw):
        log.append(("r", filename, kw))
        return store[os.path.abspath(filename)]

    reg = {"input": toughio.register_input, "output": toughio.register_output, "mesh": toughio.register_mesh}[what]
    args = (fmt, rng.choice([list, tuple])(exts), reader) + (() if readonly else (writer,))
    matkey = "gmsh:physical"
    if what == "mesh" and rng.random() < 0.6:
        matkey = "mat:" + tag
        case.call("register", reg, *args, material=matkey)
    else:
        case.call("register", reg, *args)
    w = {"input": toughio.write_input, "output": toughio.write_output, "mesh": toughio.write_mesh}[what]
    r = {"input": toughio.read_input, "output": None, "mesh": toughio.read_mesh}[what]
    x = {"input": case.P, "output": case.outs, "mesh": case.m}[what]
    for _ in range(3):
        asked = rng.random() < 0.5
        stem = rng.choice(["x", "x.json", "x.csv", "y.vtk"]) if asked else "x" + caps(rng, rng.choice(exts))
        kw = {"file_format": fmt} if asked else {}
        opt = {"level": rng.randint(0, 9)} if rng.random() < 0.5 else {}
        arg, path = name(case, stem)
        if readonly:
            if what == "input" and not asked:
                case.refused("write-read-only", Exception, w, arg, x, **opt)
            elif asked:
                case.refused("write-read-only", Exception, w, arg, x, **dict(kw, **opt))
            if what == "mesh":
                continue
            store[os.path.abspath(path)] = x
        else:
            n = len(log)
            case.call("write", w, arg, x, **dict(kw, **opt))
            case.check(len(log) == n + 1 and log[-1] == ("w", arg, opt), "writer", lambda: "%s %r %r: called %r" % (what, arg, kw, log[n:]))
            case.check(tio.read_text(path) == "written by %s\n" % fmt, "writer", "not written by the registered format")
            y = store[path if os.path.isabs(arg) else os.path.abspath(arg)]
            if what == "mesh":
                case.check(y is not x, "own-copy", "the writer of a format gets the caller's mesh")
                for k in x.cell_data:
                    case.check([len(a) for a in y.cell_data[k]] == [len(c.data) for c in x.cells] and
                               np.array_equal(np.concatenate(y.cell_data[k]), x.cell_data[k]), "writer-data", lambda: "cell data %s given to the writer" % k)
            else:
                case.check(tio.snapshot(y) == tio.snapshot(x if isinstance(x, (dict, list)) else [x]), "writer-data", "other data given to the writer")
        if r:
            n = len(log)
            if what == "mesh":
                y = store[os.path.abspath(arg)]
                if case.rng.random() < 0.5 and "material" in y.cell_data:
                    # a material key registered with the format, or an older one
                    y.cell_data[matkey] = y.cell_data.pop("material")
            got = case.call("read", r, arg, **dict(kw, **opt))
            case.check(len(log) == n + 1 and log[-1] == ("r", arg, opt), "reader", lambda: "%s %r %r: called %r" % (what, arg, kw, log[n:]))
            if what == "input":
                case.check(tio.snapshot(got) == tio.snapshot(x), "reader-data", "other data read")
            else:
                case.check(set(got.cell_data) == set(x.cell_data) and all(np.array_equal(got.cell_data[k], x.cell_data[k]) for k in x.cell_data),
                           "reader-data", lambda: "cell data read %r, expected %r" % (sorted(got.cell_data), sorted(x.cell_data)))
        case.count("registered")
        case.shape("registered", what, asked, readonly, len(exts))
    # a later registration takes over an extension, and only that one
    if not readonly and rng.random() < 0.5:
        log2 = []
        case.call("register", reg, fmt + "b", [exts[0]], lambda *a, **k: None, lambda f, y, **k: log2.append(f))
        n = len(log)
        for e in exts:
            w(case.path("take" + e), x)
        case.check(len(log2) == 1 and len(log) == n + len(exts) - 1, "take-over", "registering an extension again: %d/%d" % (len(log2), len(log) - n))
        w(case.path("take"), x, file_format=fmt)
        case.check(len(log) == n + len(exts), "take-over", "a format cannot be asked for once another took its extension")
    after = builtin(case, case.path("after"))
    case.check(before == after, "disturbed", "a new format changed what the others do")
    case.count("undisturbed")
    case.note = {"what": what, "extensions": exts, "read-only": readonly}


def forked(fn):
    """What FN() returns or raises in a process of its own: what it registers disappears with it."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("raised", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


BUILTIN = {"input": {"json": [".json"], "tough": []}, "output": {"csv": [".csv"], "tecplot": [".tec"], "petrasim": []},
           "mesh": {"flac3d": [".f3grid"], "pickle": [".pickle", ".pkl"], "tecplot": [".dat", ".tec"], "avsucd": [], "tough": []}}


@restore_cwd
def override(case):
    """A new format may take the extension, or the name, of a built-in one: the others keep theirs."""
    rng = case.rng
    what = rng.choice(["input", "output", "mesh"])
    reg = {"input": toughio.register_input, "output": toughio.register_output, "mesh": toughio.register_mesh}[what]
    w = {"input": toughio.write_input, "output": toughio.write_output, "mesh": toughio.write_mesh}[what]
    r = {"input": toughio.read_input, "output": toughio.read_output, "mesh": toughio.read_mesh}[what]
    if what == "input":
        x = gendeck.gen_params(rng)
    elif what == "output":
        x = genout.gen(rng, "element", "XYZ")
    else:
        x = genmesh.mesh(rng, data=False)[0]
    exts = {e: f for f, es in BUILTIN[what].items() for e in es}
    taken = rng.sample(sorted(exts), rng.randint(1, min(2, len(exts))))
    named = rng.random() < 0.25
    fmt = rng.choice(sorted(set(BUILTIN[what]) - {"tough"})) if named else rng.choice(["vmon", "csv2", "j"])
    readonly = not named and rng.random() < 0.5
    mine = taken + [".vmon"] * rng.randint(0, 1)
    rng.shuffle(mine)
    os.makedirs(case.path("w"))
    os.chdir(case.path("w"))

    def image(f, kw):
        if what == "input":
            return tio.snapshot(r(f, **kw))
        if what == "output":
            return tio.snapshot(r(f))
        m = r(f, **kw)
        return c20.image(m) if isinstance(m, toughio.Mesh) else tio.snapshot(m)

    def ways(gone):
        """By name, and by extension where it is not taken."""
        res = {}
        for f, es in sorted(BUILTIN[what].items()):
            if f == gone:
                continue
            for n, kw in [("by_name", {"file_format": f})] + [("x" + e, {}) for e in es if e not in taken]:
                w(n, x, **kw)
                res[f, n] = (None if f in NOBYTES else tio.contents(n), image(n, kw))
                for g in os.listdir("."):
                    os.remove(g)
        return res

    def job():
        gone = fmt if named else None
        before = ways(gone)
        log = []
        rd = lambda f, *a, **k: log.append(("r", f)) or (toughio.Mesh(x.points, x.cells) if what == "mesh" else {"read": f})
        wr = lambda f, y, **k: log.append(("w", f))
        reg(fmt, mine, rd) if readonly else reg(fmt, mine, rd, wr)
        bad = []
        after = ways(gone)
        for k in before:
            if before[k] != after.get(k):
                bad.append("the built-in format %s (%s) does something else once %s (%r) is registered" % (k[0], k[1], fmt, mine))
        for e in mine + ["by_name"]:
            f, kw = ("x" + e, {}) if e != "by_name" else ("by_name", {"file_format": fmt})
            if not readonly:
                del log[:]
                w(f, x, **kw)
                if log != [("w", f)]:
                    bad.append("%r %r: the format registered last is not used to write: %r" % (f, kw, log))
            if what != "output":
                del log[:]
                r(f, **kw)
                if log != [("r", f)]:
                    bad.append("%r %r: the format registered last is not used to read: %r" % (f, kw, log))
        return len(before), bad

    state, out = forked(job)
    case.check(state == "ok", "override-raised", lambda: "%s %s %r: %s" % (what, fmt, mine, out))
    for b in out[1]:
        case.check(False, "override", b)
    case.count("override", out[0])
    case.shape("override", what, fmt, readonly, tuple(sorted(taken)))
    case.note = {"what": what, "format": fmt, "extensions": mine, "read-only": readonly}


SCALE = 4  # cases of the quick tier are this many times those listed
FAMILIES = {"inputs": (inputs, 300, 3000), "outputs": (outputs, 300, 3000), "meshes": (meshes, 300, 3000), "refused": (refused, 300, 3000),
            "registered": (registered, 200, 2000), "override": (override, 150, 1500)}
