"""C18-C20: file input/output, judged by an independent reader of what is on disk."""
import os
import re
import shutil
import xml.etree.ElementTree as ET

import h5py
import numpy as np

from core import Arr, Violation, digest

RT = {"f32": np.float32, "f64": np.float64}
WORDS = ("velocity", "vorticity", "u", "u_0", "p", "Scalar", "Vector", "Grid", "x", "eul", "rod",
         "Velocity", "field_1", "phi", "u_1", "temperature", "origin", "time", "Eulerian", "Connection", "dx", "u&v", "du<dt>")
GRIDS = ("rod", "rod_1", "rod_10", "Rod", "Scalar", "Vector", "body", "Grid", "u", "fibre_a",
         "Parameters", "eulerian", "lagrangian_eulerian", "Connection", "sphere", "rod & wire", "\"A\"")


def groups(prop, tier):
    n = {"quick": {"C18": 24, "C19": 24, "C20": 6}, "thorough": {"C18": 60, "C19": 120, "C20": 40}}
    out = [{"name": f"{d}d/{rt}/{k}", "kind": "io", "dim": d, "rt": rt, "cost": 2.0}
           for d in (2, 3) for rt in RT for k in range(n[tier][prop])]
    if prop == "C20":
        out += [{"name": f"construct/{d}d/{k}", "kind": "construct", "dim": d, "rt": "f64",
                 "cost": 3.0} for d in (2, 3) for k in range(1 if tier == "quick" else 4)]
    return out


def run(mon, rng, g, tier):
    os.makedirs(os.path.join(mon.work, "io"), exist_ok=True)
    home = os.getcwd()
    sandbox = os.path.join(mon.work, "io", g["name"].replace("/", "_"))
    os.makedirs(sandbox)
    os.chdir(sandbox)
    try:
        if g["kind"] == "construct":
            constructions(mon, rng, g["dim"])
        else:
            {"C18": roundtrips, "C19": layout, "C20": rejections}[mon.prop](
                mon, rng, g["dim"], RT[g["rt"]], tier)
    finally:
        os.chdir(home)
        shutil.rmtree(sandbox, ignore_errors=True)


# ------------------------------------------------------------- worlds


def io_class():
    from sopht.utils.IO import IO
    return IO


def bits(a):
    return np.ascontiguousarray(a).tobytes()


def payload(rng, a):
    """Every kind of bit pattern, and uninteresting ones."""
    k = rng.random()
    if k < 0.6:
        a[...] = rng.standard_normal(a.shape) * 10.0 ** rng.uniform(-6, 6)
    elif k < 0.8:
        u = np.uint32 if a.dtype == np.float32 else np.uint64
        raw = rng.integers(0, np.iinfo(u).max, a.shape, dtype=u, endpoint=True)
        a[...] = raw.view(a.dtype) if a.ndim else raw
    else:
        v = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 1e-40, -1e-310, 1.0 / 3, 3e38])
        with np.errstate(all="ignore"):
            a[...] = rng.choice(v, a.shape).astype(a.dtype)


class Field:
    def __init__(self, rng, shape, dtype):
        lay = ("exact", "guard", "strided", "fortran", "moved")[int(rng.integers(0, 5))]
        self.layout = lay
        if lay == "fortran":
            self.parent = None
            self.arr = np.zeros(shape, dtype, order="F")
        elif lay == "moved":                      # component-last storage, viewed first
            self.parent = None
            self.arr = np.moveaxis(np.zeros((*shape[1:], shape[0]), dtype), -1, 0)
        else:
            self.parent = Arr(rng, shape, dtype, lay)
            self.arr = self.parent.arr
        payload(rng, self.arr)

    def guard(self):
        if self.parent is not None:
            self.parent.snapshot()

    def guard_ok(self):
        return self.parent is None or self.parent.guards_ok()


def ident(rng, taken, words):
    while True:
        w = str(rng.choice(words))
        if rng.random() < 0.4:
            w += str(rng.choice(["", "_2", "_x", "9", "_field"]))
        if w not in taken:
            taken.add(w)
            return w


class World:
    """What one IO object should hold: the registered arrays."""

    def __init__(self, mon, rng, d, rt):
        self.mon, self.d, self.rt = mon, d, rt
        self.grid = tuple(int(x) for x in rng.integers(1, 9, d))
        if rng.random() < 0.15:
            self.grid = (self.grid[0],) * d
        self.io = mon.call("IO()", io_class(), dim=d, real_dtype=rt)
        self.origin = (rng.uniform(-2, 2, d) if rng.random() < 0.8 else np.zeros(d)).astype(rt)
        self.dx = rng.choice([1.0, 0.1, 1 / 64, 0.37], d).astype(rt)
        if rng.random() < 0.2:
            self.origin = (self.origin * 1e4).astype(rt)
        if rng.random() < 0.3:
            self.dx = (self.dx * 10.0 ** rng.choice([-3, -6, -10, 4])).astype(rt)
        self.retired = []
        self.eul = {}                 # name -> (type, Field)
        self.lag = {}                 # grid -> {"grid": Field, "fields": {}, "connect": bool}
        self.eul_defined = rng.random() < 0.9
        order = []
        if self.eul_defined:
            mon.call("define_eulerian_grid", self.io.define_eulerian_grid, origin=self.origin,
                     dx=self.dx, grid_size=np.array(self.grid))
            order.append("eul")
        self.named = 0.6
        if rng.random() < 0.05:       # a swarm of bodies, most of them with default names
            self.named = 0.15
            order += ["lag"] * int(rng.integers(9, 40))
        else:
            order += ["lag"] * int(rng.integers(0, 4))
        if not order:
            order = ["lag"]
        for what in [order[i] for i in rng.permutation(len(order))]:
            if what == "eul":
                self.add_eulerian(rng, int(rng.integers(0, 5)))
            else:
                self.add_grid(rng)
        mon.count("worlds")

    def dtype(self, rng):
        return self.rt if rng.random() < 0.7 else (np.float32, np.float64)[int(rng.integers(0, 2))]

    def add_eulerian(self, rng, n):
        new = {}
        taken = set(self.eul)
        for _ in range(n):
            kind = "Vector" if rng.random() < 0.5 else "Scalar"
            shp = ((self.d,) if kind == "Vector" else ()) + self.grid
            new[ident(rng, taken, WORDS)] = (kind, Field(rng, shp, self.dtype(rng)))
        items = list(new.items())
        if rng.random() < 0.5:
            self.mon.call("add_as_eulerian_fields_for_io", self.io.add_as_eulerian_fields_for_io,
                          **{k: f.arr for k, (_, f) in items})
        else:
            for k, (_, f) in items:
                self.mon.call("add_as_eulerian_fields_for_io",
                              self.io.add_as_eulerian_fields_for_io, **{k: f.arr})
        self.eul.update(new)

    def add_grid(self, rng):
        n = int(rng.choice([1, 2, 3, self.d, int(rng.integers(1, 30))]))
        g = Field(rng, (self.d, n), self.dtype(rng))
        named = rng.random() < self.named
        taken = set(self.lag)
        name = ident(rng, taken, GRIDS) if named else None
        connect = rng.random() < 0.35
        fields = {}
        seen = set()
        for _ in range(int(rng.integers(0, 4))):
            kind = "Vector" if rng.random() < 0.5 else "Scalar"
            shp = (self.d, n) if kind == "Vector" else (n,)
            fields[ident(rng, seen, WORDS[:9])] = (kind, Field(rng, shp, self.dtype(rng)))
        before = set(self.io.lagrangian_grids) if not named else None
        calls = [fields]
        if named and len(fields) > 1 and rng.random() < 0.5:    # in two goes
            ks = list(fields)
            calls = [{k: fields[k] for k in ks[:1]}, {k: fields[k] for k in ks[1:]}]
        for part in calls:
            self.mon.call(
                "add_as_lagrangian_fields_for_io", self.io.add_as_lagrangian_fields_for_io,
                lagrangian_grid=g.arr, lagrangian_grid_name=name,
                lagrangian_grid_connect=connect, **{k: f.arr for k, (_, f) in part.items()})
        if not named:
            new = sorted(set(self.io.lagrangian_grids) - before)
            self.mon.require(len(new) == 1, "unnamed-grid-took-over-a-grid", new=new,
                             grids=sorted(before))
            (name,) = new
        self.lag[name] = {"grid": g, "fields": fields, "connect": connect}

    def replace(self, rng):
        """Register a field or a grid again under its name: from now on the new array counts."""
        what = [("eulerian", k) for k in self.eul]
        what += [(g, k) for g, L in self.lag.items() for k in (None, *L["fields"])]
        if not what:
            return
        g, k = what[int(rng.integers(0, len(what)))]
        if g == "eulerian" and k in self.eul:
            old = self.eul[k][1]
            kind = "Vector" if rng.random() < 0.5 else "Scalar"
            new = Field(rng, ((self.d,) if kind == "Vector" else ()) + self.grid, self.dtype(rng))
            self.mon.call("add_as_eulerian_fields_for_io", self.io.add_as_eulerian_fields_for_io,
                          **{k: new.arr})
            self.eul[k] = (kind, new)
        else:
            L = self.lag[g]
            grid, fields = L["grid"], {}
            if k is None:
                old = grid
                L["grid"] = grid = Field(rng, old.arr.shape, self.dtype(rng))
            else:
                old = L["fields"][k][1]
                kind = "Vector" if rng.random() < 0.5 else "Scalar"
                shp = grid.arr.shape if kind == "Vector" else grid.arr.shape[1:]
                new = Field(rng, shp, self.dtype(rng))
                L["fields"][k] = (kind, new)
                fields = {k: new.arr}
            self.mon.call(
                "add_as_lagrangian_fields_for_io", self.io.add_as_lagrangian_fields_for_io,
                lagrangian_grid=grid.arr, lagrangian_grid_name=g,
                lagrangian_grid_connect=L["connect"], **fields)
        self.retired.append((old, old.arr.copy()))
        self.mon.count("registrations_replaced")

    def check_retired(self, ctx):
        for f, was in self.retired:
            if bits(f.arr) != bits(was):
                raise Violation("replaced-array-still-written", **ctx)

    def all(self):
        for k, (t, f) in self.eul.items():
            yield ("eulerian", k), f
        for gname, L in self.lag.items():
            yield ("grid", gname), L["grid"]
            for k, (t, f) in L["fields"].items():
                yield ("lagrangian", gname, k), f

    def values(self):
        return {k: f.arr.copy() for k, f in self.all()}

    def scramble(self, rng):
        for _, f in self.all():
            payload(rng, f.arr)

    def near(self, rng, want):
        """Values so close to the stored ones that a comparison might call them equal."""
        for k, f in self.all():
            f.arr[...] = want[k]
            how = rng.random()
            with np.errstate(all="ignore"):
                if how < 0.4:
                    f.arr[...] = np.nextafter(f.arr, f.arr.dtype.type(rng.choice([-1e30, 1e30])))
                elif how < 0.6:
                    f.arr *= f.arr.dtype.type(1 + 1e-6)
                elif how < 0.8:          # all but one entry
                    f.arr[tuple(int(rng.integers(0, n)) for n in f.arr.shape)] = 7.5

    def guard(self):
        for _, f in self.all():
            f.guard()

    def check_guards(self, ctx):
        for k, f in self.all():
            self.mon.count("frame_checks")
            if not f.guard_ok():
                raise Violation("memory-outside-array-changed", what=k, **ctx)

    def describe(self):
        return {"dim": self.d, "real": np.dtype(self.rt).name, "grid": self.grid,
                "eulerian": {k: (t, f.arr.dtype.name, f.layout) for k, (t, f) in self.eul.items()},
                "lagrangian": {g: {"n": L["grid"].arr.shape[1], "connect": L["connect"],
                                   "fields": {k: (t, f.arr.dtype.name)
                                              for k, (t, f) in L["fields"].items()}}
                               for g, L in self.lag.items()}}

    def mirror(self, rng, subset=True, connect=False):
        """A fresh IO object with freshly allocated arrays for the same names."""
        m = World.__new__(World)
        m.mon, m.d, m.rt, m.grid = self.mon, self.d, self.rt, self.grid
        m.origin, m.dx, m.eul_defined = self.origin.copy(), self.dx.copy(), self.eul_defined
        m.io = self.mon.call("IO()", io_class(), dim=self.d, real_dtype=self.rt)
        m.eul, m.lag, m.retired = {}, {}, []
        m.named = self.named
        if m.eul_defined:
            self.mon.call("define_eulerian_grid", m.io.define_eulerian_grid, origin=m.origin,
                          dx=m.dx, grid_size=np.array(m.grid))
        keep = (lambda: rng.random() < 0.75) if subset and rng.random() < 0.4 else (lambda: True)
        names = list(self.eul)
        for i in rng.permutation(len(names)):
            k = names[i]
            if keep():
                t, f = self.eul[k]
                nf = Field(rng, f.arr.shape, f.arr.dtype)
                self.mon.call("add_as_eulerian_fields_for_io", m.io.add_as_eulerian_fields_for_io,
                              **{k: nf.arr})
                m.eul[k] = (t, nf)
        default = all(re.fullmatch(r"Lagrangian_grid_\d+", g) is None for g in self.lag)
        names = list(self.lag)
        order = rng.permutation(len(names)) if default else range(len(names))
        for i in order:
            g = names[i]
            L = self.lag[g]
            if not keep():
                continue
            ng = Field(rng, L["grid"].arr.shape, L["grid"].arr.dtype)
            fs = {k: (t, Field(rng, f.arr.shape, f.arr.dtype)) for k, (t, f) in L["fields"].items()
                  if keep()}
            c = L["connect"] ^ bool(connect and rng.random() < 0.5)
            self.mon.call("add_as_lagrangian_fields_for_io", m.io.add_as_lagrangian_fields_for_io,
                          lagrangian_grid=ng.arr, lagrangian_grid_name=g,
                          lagrangian_grid_connect=c,
                          **{k: f.arr for k, (_, f) in fs.items()})
            m.lag[g] = {"grid": ng, "fields": fs, "connect": c}
        return m


def file_name(rng, k):
    stem = str(rng.choice(["run", "a.b", "out.h5.bak", "flow-0001", "x y", "data.h5", "A&B", "it's <1>"]))
    stem = f"{stem}{k}"
    if rng.random() < 0.7:
        stem += ".h5"
    where = str(rng.choice(["", "sub", "dir.h5", "abs"]))
    if where == "":
        return stem
    d = where if where != "abs" else os.path.join(os.getcwd(), "abs")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, stem)


def time_value(rng):
    k = int(rng.integers(0, 5))
    return [0.0, float(rng.standard_normal() * 10.0 ** rng.uniform(-9, 9)),
            np.float32(rng.standard_normal()), np.float64(rng.standard_normal()),
            int(rng.integers(0, 1000))][k]


def same(mon, want, world, ctx, kind):
    for k, f in world.all():
        mon.count("arrays_compared")
        mon.count("elements_compared", f.arr.size)
        if bits(f.arr) != bits(want[k]):
            raise Violation(kind, what=k, **ctx)


# ------------------------------------------------------------- C18


def save(mon, w, name, t, ctx):
    w.guard()
    before = w.values()
    mon.call("save", w.io.save, h5_file_name=name, time=t)
    mon.count("saves")
    same(mon, before, w, ctx, "save-modified-registered-array")
    w.check_guards(ctx)
    return before


def load(mon, w, name, want, t, ctx):
    ids = {k: f.arr for k, f in w.all()}
    w.guard()
    got = mon.call("load", w.io.load, h5_file_name=name)
    mon.count("loads")
    same(mon, want, w, ctx, "loaded-value-differs")
    w.check_guards(ctx)
    w.check_retired(ctx)
    for k, f in w.all():
        assert ids[k] is f.arr
    mon.require(np.asarray(got).shape == () and got == t, "loaded-time-differs", got=repr(got),
                expected=repr(t), **ctx)


def roundtrips(mon, rng, d, rt, tier):
    worlds = [World(mon, rng, d, rt) for _ in range(2)]
    files = {}
    for k in range(14 if tier == "quick" else 40):
        w = worlds[int(rng.integers(0, 2))]
        mine = [n for n, (o, *_) in files.items() if o is w]
        op = rng.random()
        ctx = {"world": w.describe(), "step": k}
        if op < 0.45 or not mine:
            reuse = mine and rng.random() < 0.3
            name = mine[int(rng.integers(0, len(mine)))] if reuse else file_name(rng, k)
            if rng.random() < 0.7:
                w.scramble(rng)
            t = time_value(rng)
            ctx["file"], ctx["time"] = name, repr(t)
            files[name] = (w, save(mon, w, name, t, ctx), t)
            mon.case(("save", digest(*files[name][1].values()), name), bool(files[name][1]), ctx)
        elif op < 0.55 and w.eul_defined:
            w.add_eulerian(rng, 1)           # later saves hold more fields
            for n in mine:
                files.pop(n)
        elif op < 0.61:
            w.add_grid(rng)
            for n in mine:
                files.pop(n)
        elif op < 0.67:
            w.replace(rng)
            for n in mine:
                files.pop(n)
        else:
            name = mine[int(rng.integers(0, len(mine)))]
            _, want, t = files[name]
            other = rng.random() < 0.6
            target = w.mirror(rng, connect=True) if other else w
            if rng.random() < 0.75:
                target.scramble(rng)
            else:
                target.near(rng, want)
                mon.count("loads_over_nearly_equal_values")
            ctx["file"], ctx["into"] = name, "new object" if other else "same object"
            load(mon, target, name, want, t, ctx)
            mon.seen("load_into", ctx["into"])
            mon.case(("load", name, digest(*want.values()), other), bool(want), ctx)
            if other and rng.random() < 0.3:      # a restarted run saves as well
                n2 = file_name(rng, 1000 + k)
                full = {kk: vv for kk, vv in target.values().items()}
                for gn, L in target.lag.items():   # the file's connectivity came along
                    if w.lag[gn]["connect"] and not L["connect"]:
                        mon.count("connectivity_taken_from_file")
                        L["connect"] = True
                save(mon, target, n2, t, ctx)
                with h5py.File(n2, "r") as f:
                    for gn, L in target.lag.items():
                        n = L["grid"].arr.shape[1]
                        c = datasets(f).get(f"Lagrangian/{gn}/Connection")
                        mon.require((c is not None and np.array_equal(c[...], np.arange(n)))
                                    if L["connect"] else c is None, "connectivity-not-kept",
                                    grid=gn, expected=L["connect"], **ctx)
                again = target.mirror(rng)
                load(mon, again, n2, full, t, ctx)
                mon.count("second_generation_roundtrips")


# ------------------------------------------------------------- C19


def datasets(f):
    out = {}
    f.visititems(lambda n, o: out.__setitem__(n, o) if isinstance(o, h5py.Dataset) else None)
    return out


def ints(text):
    return [int(x) for x in text.split()]


def item(mon, el, name, dset, ctx, xmf):
    """One DataItem in HDF format: path resolves, dimensions agree."""
    mon.require(el.get("Format") == "HDF", "xdmf-not-hdf", xmf=xmf, **ctx)
    text = el.text.strip()
    fname, _, path = text.rpartition(":")
    mon.require(fname == name or os.path.join(os.path.dirname(xmf), fname) == name
                or os.path.realpath(fname) == os.path.realpath(name),
                "xdmf-path-names-another-file", got=fname, xmf=xmf, **ctx)
    path = path.strip("/")
    mon.require(path in dset, "xdmf-path-not-in-file", got=path, xmf=xmf, **ctx)
    return path, ints(el.get("Dimensions"))


def parse_time(mon, grid, t, ctx):
    v = float(grid.find("Time").get("Value"))
    ok = np.float32(v) == t if isinstance(t, np.float32) else v == float(t)
    mon.require(ok, "xdmf-time-differs", got=v, expected=repr(t), **ctx)


def textual(mon, what, el, want, rt, ctx):
    mon.require(ints(el.get("Dimensions")) == [len(want)], f"xdmf-{what}-dimensions",
                got=el.get("Dimensions"), **ctx)
    got = [float(x) for x in el.text.split()]
    digits = 1e-8 if rt is np.float32 else 1e-15
    mon.require(len(got) == len(want), f"xdmf-{what}-length", got=got, **ctx)
    for g, w in zip(got, want):
        # that many decimals, but never fewer than four (twelve) significant digits
        room = min(digits * max(abs(float(w)), 1.0), digits * 1e4 * abs(float(w)))
        eps = float(np.finfo(rt).eps)
        mon.require(abs(g - float(w)) <= room + 2 * eps * abs(float(w)),
                    f"xdmf-{what}-value", got=got, expected=[float(x) for x in want], **ctx)


def layout(mon, rng, d, rt, tier):
    for k in range(6 if tier == "quick" else 20):
        w = World(mon, rng, d, rt)
        for _ in range(int(rng.integers(1, 4)) if rng.random() < 0.3 else 0):
            w.replace(rng)
        name = file_name(rng, k)
        t = time_value(rng)
        ctx = {"world": w.describe(), "file": name, "time": repr(t)}
        here = os.path.dirname(name) or "."
        bystander = os.path.join(here, "bystander.txt")
        with open(bystander, "w") as f:
            f.write("keep me")
        before = set(os.listdir(here))
        mon.call("save", w.io.save, h5_file_name=name, time=t)
        new = set(os.listdir(here)) - before
        mon.count("saves")
        with open(bystander) as f:
            mon.require(f.read() == "keep me", "bystander-file-changed", **ctx)
        os.unlink(bystander)
        mon.require(os.path.basename(name) in new, "data-file-missing", new=sorted(new), **ctx)
        xmfs = sorted(os.path.join(here, n) for n in new if n != os.path.basename(name))
        n_xmf = (1 if w.eul else 0) + len(w.lag)
        mon.require(len(xmfs) == n_xmf and all(x.endswith(".xmf") for x in xmfs),
                    "xdmf-file-count", got=xmfs, expected=n_xmf, **ctx)
        with h5py.File(name, "r") as f:
            judge_h5(mon, f, w, t, ctx)
            judge_xmf(mon, f, w, t, ctx, name, xmfs)
        for x in [name] + xmfs:
            os.unlink(x)
        mon.case((repr(ctx), digest(*w.values().values())), bool(w.eul or w.lag), ctx)


def judge_h5(mon, f, w, t, ctx):
    dset = datasets(f)
    want = {}
    for k, (typ, fl) in w.eul.items():
        if typ == "Scalar":
            want[f"Eulerian/Scalar/{k}"] = fl.arr[None]
        else:
            for c in range(w.d):
                want[f"Eulerian/Vector/{k}_{c}"] = fl.arr[c][None]
    for g, L in w.lag.items():
        want[f"Lagrangian/{g}/Grid"] = L["grid"].arr.T
        if L["connect"]:
            want[f"Lagrangian/{g}/Connection"] = np.arange(L["grid"].arr.shape[1])
        for k, (typ, fl) in L["fields"].items():
            want[f"Lagrangian/{g}/{typ}/{k}"] = fl.arr.T if typ == "Vector" else fl.arr
    mon.require(set(dset) == set(want), "hdf5-datasets", missing=sorted(set(want) - set(dset)),
                extra=sorted(set(dset) - set(want)), **ctx)
    for p, a in want.items():
        got = dset[p]
        mon.count("datasets_checked")
        mon.require(got.shape == a.shape, "hdf5-shape", path=p, got=got.shape, expected=a.shape,
                    **ctx)
        if re.fullmatch(r"Lagrangian/[^/]*/Connection", p):
            mon.require(np.array_equal(got[...], a), "hdf5-connection", path=p, **ctx)
        else:
            mon.require(got.dtype == a.dtype and bits(got[...]) == bits(a), "hdf5-value", path=p,
                        **ctx)
    mon.require("time" in f.attrs and f.attrs["time"] == t, "hdf5-time", **ctx)
    if w.eul_defined:
        p = f["Eulerian/Parameters"].attrs
        for k, a in (("origin", w.origin), ("dx", w.dx), ("grid_size", np.array(w.grid))):
            mon.require(k in p and np.array_equal(p[k], a), "hdf5-parameters", what=k, **ctx)


def judge_xmf(mon, f, w, t, ctx, name, xmfs):
    dset = datasets(f)
    described = set()
    for x in xmfs:
        mon.count("xdmf_files")
        try:
            root = ET.parse(x).getroot()
        except ET.ParseError as e:
            raise Violation("xdmf-not-xml", xmf=x, error=str(e), **ctx)
        grids = list(root.iter("Grid"))
        mon.require(len(grids) == 1, "xdmf-grid-count", xmf=x, **ctx)
        g = grids[0]
        parse_time(mon, g, t, ctx)
        topo, geom = g.find("Topology"), g.find("Geometry")
        attrs = [(a.get("Name"), a) for a in g.findall("Attribute")]
        if topo.get("TopologyType").upper().endswith("CORECTMESH"):
            key = "eulerian"
            full = [1] * (3 - w.d) + list(w.grid)
            mon.require(ints(topo.get("Dimensions")) == full, "xdmf-topology", xmf=x,
                        got=topo.get("Dimensions"), **ctx)
            parts = {i.get("Name"): i for i in geom.findall("DataItem")}
            pad = [0.0] * (3 - w.d)
            textual(mon, "origin", parts["Origin"], pad + list(w.origin), w.rt, ctx)
            textual(mon, "spacing", parts["Spacing"], pad + list(w.dx), w.rt, ctx)
            # a scalar may share its name with a component of a vector: the paths differ
            want = [(k, f"Eulerian/Scalar/{k}") for k, (ty, _) in w.eul.items() if ty == "Scalar"]
            want += [(f"{k}_{c}", f"Eulerian/Vector/{k}_{c}") for k, (ty, _) in w.eul.items()
                     if ty == "Vector" for c in range(w.d)]
        else:
            els = [i for i in geom.iter("DataItem")]
            mon.require(len(els) == 1, "xdmf-geometry", xmf=x, **ctx)
            path, dims = item(mon, els[0], name, dset, ctx, x)
            m = re.fullmatch(r"Lagrangian/(.*)/Grid", path)
            mon.require(m is not None and m.group(1) in w.lag, "xdmf-geometry-path", got=path,
                        xmf=x, **ctx)
            key = ("lag", m.group(1))
            L = w.lag[m.group(1)]
            n = L["grid"].arr.shape[1]
            mon.require(dims == [n, w.d], "xdmf-geometry-dimensions", got=dims, xmf=x, **ctx)
            mon.require(geom.get("GeometryType") == ("XYZ" if w.d == 3 else "XY"),
                        "xdmf-geometry-type", got=geom.get("GeometryType"), xmf=x, **ctx)
            if L["connect"]:
                mon.require(topo.get("TopologyType") == "Polyline", "xdmf-topology-type", xmf=x,
                            got=topo.get("TopologyType"), **ctx)
                path, dims = item(mon, topo.find("DataItem"), name, dset, ctx, x)
                mon.require(path == f"Lagrangian/{m.group(1)}/Connection" and
                            [v for v in dims if v != 1] == [v for v in [n] if v != 1],
                            "xdmf-connection", got=(path, dims), xmf=x, **ctx)
            else:
                mon.require(topo.get("TopologyType") == "Polyvertex"
                            and int(topo.get("NumberOfElements")) == n, "xdmf-topology", xmf=x,
                            **ctx)
            want = [(k, f"Lagrangian/{m.group(1)}/{typ}/{k}")
                    for k, (typ, _) in L["fields"].items()]
        mon.require(key not in described, "xdmf-grid-described-twice", key=key, **ctx)
        described.add(key)
        got = []
        for k, a in attrs:
            path, dims = item(mon, a.find("DataItem"), name, dset, ctx, x)
            mon.count("xdmf_attributes")
            got.append((k, path))
            stored = list(dset[path].shape)
            while len(stored) > len(dims) and stored[0] == 1:   # a leading axis of one entry
                stored = stored[1:]
            mon.require(dims == stored, "xdmf-dimensions", attribute=k, got=dims,
                        stored=list(dset[path].shape), **ctx)
            typ = "Scalar" if key == "eulerian" else path.split("/")[2]
            mon.require(a.get("AttributeType") == typ, "xdmf-attribute-type", attribute=k,
                        got=a.get("AttributeType"), **ctx)
        mon.require(sorted(got) == sorted(want), "xdmf-fields", got=sorted(got),
                    expected=sorted(want), xmf=x, **ctx)


# ------------------------------------------------------------- C20


def rejections(mon, rng, d, rt, tier):
    for k in range(4 if tier == "quick" else 12):
        bad_registrations(mon, rng, d, rt, k)
        bad_files(mon, rng, d, rt, k)


def still_works(mon, rng, w, k, ctx):
    """Everything registered properly still goes to disk and back."""
    name = f"after{k}-{int(rng.integers(0, 10**9))}.h5"
    want = save(mon, w, name, 1.5, ctx)
    m = w.mirror(rng, subset=False)
    load(mon, m, name, want, 1.5, ctx)
    with h5py.File(name, "r") as f:
        judge_h5(mon, f, w, 1.5, ctx)
    mon.count("still_working_probes")


def wrong_shapes(rng, good):
    """Shapes next to every good one, none of them good."""
    out = []
    for g in good:
        for a in range(len(g)):
            for dl in (-1, 1, 5):
                s = list(g)
                s[a] += dl
                if s[a] >= 0:
                    out.append(tuple(s))
        out.append(g + (1,))
        out.append((1,) + g)
        out.append(g[1:])
        out.append(g[:-1])
        out.append(tuple(reversed(g)))
        out.append((int(np.prod(g)),))
        out.append((4,) + g)
    out.append(())
    return [s for s in dict.fromkeys(out) if s not in good]


def bad_registrations(mon, rng, d, rt, k):
    io = mon.call("IO()", io_class(), dim=d, real_dtype=rt)
    shape = tuple(int(x) for x in rng.integers(1, 6, d))
    mon.expect_reject("Eulerian field before the grid", io.add_as_eulerian_fields_for_io,
                      f=np.zeros(shape, rt))
    w = World(mon, rng, d, rt)
    ctx = {"world": w.describe()}
    if w.eul_defined:
        good = [w.grid, (d, *w.grid)]
        bad = wrong_shapes(rng, good)
        pick = bad if len(bad) < 14 else [bad[i] for i in rng.permutation(len(bad))[:14]]
        for s in pick:
            new = "fresh" if rng.random() < 0.6 or not w.eul else list(w.eul)[
                int(rng.integers(0, len(w.eul)))]
            mon.expect_reject(f"Eulerian array {s} on grid {w.grid} as {new}",
                              w.io.add_as_eulerian_fields_for_io, **{new: np.zeros(s, rt)})
            mon.case(("eul", s, w.grid, new == "fresh"), True)
        still_works(mon, rng, w, k, ctx)
    n = int(rng.integers(1, 9))
    for s in ((n,), (d + 1, n), (d - 1, n), (d, n, 1), (n, d) if n != d else (1, n), (0, n)):
        if len(s) == 2 and s[0] == d:
            continue
        mon.expect_reject(f"Lagrangian grid {s} in {d}D", w.io.add_as_lagrangian_fields_for_io,
                          lagrangian_grid=np.zeros(s, rt))
        mon.case(("laggrid", s, d), True)
    still_works(mon, rng, w, k, ctx)
    for gname in list(w.lag):
        L = w.lag[gname]
        n = L["grid"].arr.shape[1]
        good = [(n,), (d, n)]
        bad = wrong_shapes(rng, good)
        for s in [bad[i] for i in rng.permutation(len(bad))[:8]]:
            new = "fresh" if rng.random() < 0.6 or not L["fields"] else list(L["fields"])[
                int(rng.integers(0, len(L["fields"])))]
            mon.expect_reject(f"Lagrangian array {s} on {n} nodes as {new}",
                              w.io.add_as_lagrangian_fields_for_io, lagrangian_grid=L["grid"].arr,
                              lagrangian_grid_name=gname, **{new: np.zeros(s, rt)})
            mon.case(("lag", s, n, new == "fresh"), True)
        for m in (n + 1, 1 if n > 1 else 2):
            mon.expect_reject(f"grid of {n} nodes registered again with {m}",
                              w.io.add_as_lagrangian_fields_for_io,
                              lagrangian_grid=np.zeros((d, m), rt), lagrangian_grid_name=gname)
    still_works(mon, rng, w, k, ctx)


def fresh_like(mon, rng, w, **over):
    """A mirror of w with other Eulerian parameters."""
    m = World.__new__(World)
    m.__dict__.update(w.__dict__)
    m.__dict__.update(over)
    # arrays of the (possibly different) grid size
    src = World.__new__(World)
    src.__dict__.update(w.__dict__)
    src.origin, src.dx, src.grid = m.origin, m.dx, m.grid
    src.eul = {k: (t, Field(rng, ((w.d,) if t == "Vector" else ()) + tuple(m.grid), f.arr.dtype))
               for k, (t, f) in w.eul.items()}
    return src.mirror(rng, subset=False)


def bad_files(mon, rng, d, rt, k):
    w = World(mon, rng, d, rt)
    if not w.eul_defined or not w.eul:
        w = World(mon, rng, d, rt)
    name = f"f{k}.h5"
    save(mon, w, name, 0.5, {})

    def refuse(what, m, path=name):
        mon.expect_reject(f"load: {what}", m.io.load, h5_file_name=path)
        mon.case(("load", what, repr(w.describe())), True)
        mon.seen("bad_file", what.split(":")[0])

    # a field, grid or grid's field that the file does not have
    if w.eul_defined:
        for kind in ("Scalar", "Vector"):
            m = w.mirror(rng, subset=False)
            nm = ident(rng, set(w.eul), WORDS)
            shp = ((d,) if kind == "Vector" else ()) + w.grid
            m.io.add_as_eulerian_fields_for_io(**{nm: np.zeros(shp, rt)})
            stored = {f"{n}_{c}" for n, (t, _) in w.eul.items() if t == "Vector" for c in range(d)}
            if kind == "Scalar" or not all(f"{nm}_{c}" in stored for c in range(d)):
                refuse(f"missing Eulerian {kind}: {nm}", m)
    for gname, L in w.lag.items():
        n = L["grid"].arr.shape[1]
        for shp in ((n,), (d, n)):
            m = w.mirror(rng, subset=False)
            nm = ident(rng, set(L["fields"]), WORDS)
            m.io.add_as_lagrangian_fields_for_io(
                lagrangian_grid=m.lag[gname]["grid"].arr, lagrangian_grid_name=gname,
                **{nm: np.zeros(shp, rt)})
            refuse(f"missing Lagrangian field: {nm} on {gname}", m)
    m = w.mirror(rng, subset=False)
    gname = ident(rng, set(w.lag), GRIDS)
    m.io.add_as_lagrangian_fields_for_io(
        lagrangian_grid=np.zeros((d, 3), rt), lagrangian_grid_name=gname)
    refuse(f"missing Lagrangian grid: {gname}", m)

    # registered with the other type
    for kname, (t, f) in w.eul.items():
        m = w.mirror(rng, subset=False)
        shp = ((d,) if t == "Scalar" else ()) + w.grid
        m.io.add_as_eulerian_fields_for_io(**{kname: np.zeros(shp, rt)})
        stored = {f"{n}_{c}" for n, (tt, _) in w.eul.items() if tt == "Vector" for c in range(d)}
        if t == "Vector" or not all(f"{kname}_{c}" in stored for c in range(d)):
            refuse(f"field of the other type: {kname}", m)

    # other Eulerian parameters
    if w.eul:
        for axis in range(d):
            o = w.origin.copy()
            rel = 10.0 ** rng.uniform(-6.5 if rt is np.float64 else -5.5, -2)
            o[axis] += rt(max(float(w.dx[axis]), abs(o[axis])) * rel * rng.choice([-1, 1, 100]))
            refuse(f"origin axis {axis}", fresh_like(mon, rng, w, origin=o))
            dx = w.dx.copy()
            dx[axis] *= rt(rng.choice([1 - rel, 1 + rel, 2.0, 0.5]))
            refuse(f"spacing axis {axis}", fresh_like(mon, rng, w, dx=dx))
            for delta in (1, -1, None):
                g = list(w.grid)
                g[axis] = 1 if delta is None else g[axis] + delta
                if g[axis] >= 1 and tuple(g) != w.grid:
                    refuse(f"grid size axis {axis}", fresh_like(mon, rng, w, grid=tuple(g)))
            # the file holds the smaller grid (also the one that broadcasts)
            g = list(w.grid)
            g[axis] += int(rng.integers(1, 4))
            big = fresh_like(mon, rng, w, grid=tuple(g))
            big.io.save(h5_file_name="big.h5", time=0.0)
            refuse(f"file of another grid size axis {axis}", w.mirror(rng, subset=False), "big.h5")
        if len(set(w.grid)) > 1:
            p = tuple(reversed(w.grid))
            if p != w.grid:
                refuse("grid size permuted", fresh_like(mon, rng, w, grid=p))
        other = io_class()(dim=5 - d, real_dtype=rt)
        gs = (1,) + w.grid if d == 2 else w.grid[1:]
        other.define_eulerian_grid(origin=np.zeros(5 - d, rt), dx=np.ones(5 - d, rt),
                                   grid_size=np.array(gs))
        for kname, (t, f) in w.eul.items():
            if t == "Scalar":
                other.add_as_eulerian_fields_for_io(**{kname: np.zeros(gs, rt)})
                mon.expect_reject("load: file of another dimension", other.load, h5_file_name=name)

    # Lagrangian data of another size, in the file or in memory
    for gname, L in w.lag.items():
        n = L["grid"].arr.shape[1]
        for m_ in {n + 1, max(1, n - 1), 1, 2 * n} - {n}:
            io = io_class()(dim=d, real_dtype=rt)
            io.add_as_lagrangian_fields_for_io(
                lagrangian_grid=np.zeros((d, m_), rt), lagrangian_grid_name=gname)
            mon.expect_reject(f"load: {n} stored nodes into {m_}", io.load, h5_file_name=name)
            mon.case(("nodes", n, m_, gname), True)
            mon.seen("bad_file", "Lagrangian grid size")
        for kname, (t, f) in L["fields"].items():
            path = f"Lagrangian/{gname}/{t}/{kname}"
            for m_ in {n + 1, 1, 2} - {n}:
                shutil.copy(name, "tampered.h5")
                with h5py.File("tampered.h5", "r+") as h:
                    del h[path]
                    h.create_dataset(path, data=np.zeros((m_, d) if t == "Vector" else (m_,), rt))
                mirror = w.mirror(rng, subset=False)
                refuse("Lagrangian field size", mirror, "tampered.h5")
    # and the untampered file is still fine
    good = w.mirror(rng, subset=False)
    load(mon, good, name, w.values(), 0.5, {"world": w.describe()})
    mon.count("accepted_controls")


# ------------------------------------------------------------- constructions


def constructions(mon, rng, d):
    """Options that do not exist are refused when a kernel or object is made."""
    import registry as R
    from sopht.utils import precision, pyst_kernel_config
    from sopht.numeric import immersed_boundary_ops as ib
    from sessions import ns

    for p in ("half", "quad", "", "Single", None, 32, np.float32):
        mon.expect_reject(f"get_real_t({p!r})", precision.get_real_t, p)
        mon.expect_reject(f"get_test_tol({p!r})", precision.get_test_tol, p)
        mon.case(("precision", repr(p)), True)
    mon.require(precision.get_real_t("single") is np.float32
                and precision.get_real_t("double") is np.float64
                and precision.get_real_t() is np.float32, "precision-names")
    for t in (np.float32, np.float64):
        nm = "single" if t is np.float32 else "double"
        tol = precision.get_test_tol(nm)
        mon.require(type(tol) is t and tol == t(1e3) * np.finfo(t).eps, "test-tolerance",
                    got=repr(tol))
    bad_types = (np.float16, np.int32, np.int64, np.complex64, np.complex128, bool)
    for t in bad_types:
        mon.expect_reject(f"dtype {t}", pyst_kernel_config.get_pyst_dtype, t)
        mon.expect_reject(f"config {t}", pyst_kernel_config.get_pyst_kernel_config, t, 1)
        mon.case(("dtype", str(t)), True)
    shape = tuple(int(x) for x in rng.integers(8, 12, d))
    done = set()
    for spec in R.SPECS:
        if spec.dim != d:
            continue
        o = dict(spec.variants[int(rng.integers(0, len(spec.variants)))])
        while o.get("width") == 0:
            o = dict(spec.variants[int(rng.integers(0, len(spec.variants)))])
        if spec.name not in done:
            done.add(spec.name)
            for t in bad_types:
                mon.expect_reject(f"{spec.name} for {t}", build, spec, ns(), o, t, shape, rng)
                mon.case(("gen", spec.name, str(t)), True)
            mon.seen("rejected_generator", spec.name)
        keys = {"field_type": ("tensor", "Scalar", "", None, "vectors"),
                "filter_type": ("conv", "", None, "Multiplicative", "gaussian"),
                "filter_order": (-1, -3, 1.0, 2.5),
                "width": (-1, -2, -5)}
        for k, vals in keys.items():
            if k not in o:
                continue
            for v in vals:
                mon.expect_reject(f"{spec.name} {k}={v!r}", build, spec, ns(), {**o, k: v},
                                  np.float64, shape, rng)
                mon.case(("gen", spec.name, k, repr(v)), True)
                mon.seen("rejected_option", (spec.name, k))
    for v in (1, 4, 0, -2, "2"):
        mon.expect_reject(f"IO dim={v!r}", io_class(), dim=v)
        mon.case(("IO", repr(v)), True)
    com = {2: ib.EulerianLagrangianGridCommunicator2D, 3: ib.EulerianLagrangianGridCommunicator3D}[d]
    base = dict(dx=0.1, eul_grid_coord_shift=0.05, num_lag_nodes=3, interp_kernel_width=2,
                real_t=np.float64, n_components=1)
    mon.call("communicator", com, **base)
    bad = [dict(interp_kernel_type=v) for v in ("gauss", "", None, "Peskin", "cosin")]
    bad += [dict(interp_kernel_width=v, interp_kernel_type=t) for v in (1, 3, 4)
            for t in ("cosine", "peskin")]
    bad += [dict(n_components=v) for v in (0, 5 - d, 4, -1)]
    for o in bad:
        mon.expect_reject(f"communicator {d}d {o}", com, **{**base, **o})
        mon.case(("communicator", d, repr(o)), True)
    for v in (1, 4, 0):
        mon.expect_reject(f"virtual boundary grid_dim={v}", ib.VirtualBoundaryForcing,
                          virtual_boundary_stiffness_coeff=1.0, virtual_boundary_damping_coeff=1.0,
                          grid_dim=v, dx=0.1, num_lag_nodes=3, real_t=np.float64)
        mon.expect_reject(f"brinkmann boundary grid_dim={v}", ib.BrinkmannBoundaryForcing,
                          brinkmann_coeff=1.0, grid_dim=v, dx=0.1, eul_grid_coord_shift=0.05,
                          num_lag_nodes=3, interp_kernel_width=2, real_t=np.float64)
        mon.case(("forcing", v), True)
    for w in (1, 3, 4):
        mon.expect_reject(f"virtual boundary width={w}", ib.VirtualBoundaryForcing,
                          virtual_boundary_stiffness_coeff=1.0, virtual_boundary_damping_coeff=1.0,
                          grid_dim=d, dx=0.1, num_lag_nodes=3, real_t=np.float64,
                          interp_kernel_width=w)
        mon.expect_reject(f"brinkmann boundary width={w}", ib.BrinkmannBoundaryForcing,
                          brinkmann_coeff=1.0, grid_dim=d, dx=0.1, eul_grid_coord_shift=0.05,
                          num_lag_nodes=3, interp_kernel_width=w, real_t=np.float64)
        mon.case(("forcing width", w), True)


def build(spec, e, o, rt, shape, rng):
    spec.build(e, o, rt, False, False, shape, rng)
