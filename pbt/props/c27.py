"""C27: cumulative spectra are integrals which end at the total over modes."""
import contextlib
import glob
import io
import os
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, tetra
from pbt.core import Reject, close, require, same
from pbt.props import c14

ints = st.integers
pick = st.sampled_from
SCALARS = ["gamma", "tau", "cv", "gv-norm", "dos", "pqj"]


@st.composite
def strategy_(draw):
    if draw(ints(0, 2)) != 2:
        d = dict(route="lib", seed=draw(ints(0, 10 ** 6)), grid=draw(gridref.gridcases(maxn=60)))
        d["what"] = draw(pick(["kdos", "kdos", "prop", "mfp", "gamma", "lib-mfp"]))
        d["ir"] = draw(ints(0, 2)) != 2 and 1 or 0
        d["wgt"] = draw(ints(0, 1))
        d["nb"] = draw(ints(1, 4))
        d["nt"] = draw(ints(1, 3))
        d["ne"] = draw(ints(1, 7))
        d["nsp"] = draw(pick([7, 2, 1, 30, 100]))
        d["values"] = draw(pick(["random", "random", "smooth", "coarse", "flat", "neg"]))
        d["own"] = draw(ints(0, 2))
        d["sigma"] = draw(pick([None, 0.3, 0.1, 0.05, 2.0]))
        return d
    d = dict(route="script", crystal=draw(model.crystals(sc="sym", size=8, max_atoms=3, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 4)))
    d["temps"] = draw(st.lists(pick([300, 5, 30, 100, 1000]), min_size=1, max_size=3, unique=True))
    d["sig"] = [draw(pick([0.2, 0.1, 0.5, None]))]
    d["scut"] = None
    d["cut"] = None
    d["msym"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["sym"] = 1
    d["star"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["iso"] = 0
    d["mfp"] = None
    d["compact"] = draw(ints(0, 1))
    d["r0"] = 1
    d["what"] = draw(pick(["kappa", "dos", "kappa", "gv", "mfp", "mfp"] + SCALARS))
    d["show"] = draw(pick(["", "", "average", "trace"]))
    d["nsp"] = draw(pick([100, 5, 17]))
    d["at"] = draw(pick([None, 0, 1, 2]))
    d["smear"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["file"] = draw(pick(["phonon", "kappa"]))
    d["yaml"] = draw(pick(["phono3py_disp.yaml", "phono3py.yaml"]))
    d["name"] = draw(pick([None, "a"]))
    return d


def strategy(tier):
    return strategy_()


def relative(bz):
    """Verified tetrahedra around a grid point as address differences."""
    rel = tetra.checked_tetrahedra(np.array(bz.microzone_lattice), require)
    return np.array(rel) @ np.array(bz.P).T


def index_map(bz):
    """Regular grid address -> index."""
    d = np.array(bz.D_diag)
    return {tuple(a): i for i, a in enumerate(np.array(bz.addresses)[np.array(bz.grg2bzg)] % d)}, d


def spectra(values, prop, bz, points, ir, irmap, x, done):
    """(T, x, 2, elem) sums over tetrahedra; prop carries weights of grid points."""
    rel = relative(bz)
    idx, d = index_map(bz)
    row = {int(g): i for i, g in enumerate(ir)}
    out = np.zeros((prop.shape[0], len(x), 2, prop.shape[3]))
    bad = np.zeros(len(x), dtype=bool)
    rel_q = rel.reshape(-1, 3)
    for k, g in enumerate(ir):
        a = np.array(bz.addresses)[np.array(bz.grg2bzg)[g]]
        v = [row[int(irmap[idx[tuple(y)]])] for y in (a + rel_q) % d]
        f = values[v].reshape(24, 4, -1)
        spread = f.max(axis=1) - f.min(axis=1)
        t = np.transpose(f, (0, 2, 1))[:, :, None]  # The point itself is the first vertex.
        for j, fun in enumerate("JI"):
            w = tetra.weight(t, 0, x, fun).sum(axis=0) / 6
            out[:, :, j] += np.einsum("bx,tbe->txe", w, prop[:, k])
        # Ties of sampling points with values on which limits from both sides differ, and very thin tetrahedra.
        near = np.abs(x[:, None] - f.reshape(1, -1)).min(axis=1) < 1e-8 * max(1, np.abs(values).max())
        thin = spread < 1e-6 * max(1e-3, np.abs(values).max())
        for t, b in zip(*np.where(thin)):
            near |= np.abs(x - f[t, :, b].mean()) < 3e-6 * max(1e-3, np.abs(values).max())
        bad |= near
    return out / len(irmap), bad


def check(case):
    return library(case) if case["route"] == "lib" else script(case)


def library(case):
    from phono3py.other import kaccum
    from phono3py.phonon.grid import get_ir_grid_points
    rng = np.random.default_rng(case["seed"])
    if case["what"] == "gamma":
        return smearing(case, rng)
    if case["what"] == "lib-mfp":
        return paths(case, rng)
    try:
        bz, _, _ = gridref.make_grid(case["grid"], maxn=60)
    except (RuntimeError, AssertionError, ValueError) as e:
        raise Reject("grid: " + str(e)[:30])
    n = int(np.prod(bz.D_diag))
    if n > 130:
        raise Reject("too many grid points")
    ir, w, m = (np.array(a) for a in get_ir_grid_points(bz))
    if not case["ir"]:
        ir, w, m = np.arange(n), np.ones(n, dtype="int64"), np.arange(n)
    nb, nt, ne = case["nb"], case["nt"], case["ne"]
    f = rng.random((len(ir), nb)) * 10
    if case["values"] == "smooth":
        q = np.array(gridref.qpoints(bz))[np.array(bz.grg2bzg)[ir]]
        f = 5 + np.cos(2 * np.pi * q @ rng.integers(-1, 2, size=(3, nb))) * rng.random(nb) * 4 + 0.01 * rng.random((len(ir), nb))
    elif case["values"] == "coarse":
        f = np.round(f)
    elif case["values"] == "flat":
        f = f * 0 + rng.random(nb) * 5
    elif case["values"] == "neg":
        f = f - 3
    f = np.ascontiguousarray(f)
    prop = np.ascontiguousarray(rng.normal(size=(nt, len(ir), nb, ne)))
    weighted = prop * w[None, :, None, None]
    kept = (f.copy(), prop.copy())
    x = None
    what = case["what"]
    if what == "kdos":
        kw = {}
        if case["own"]:
            x = rng.random(case["nsp"]) * 12 - 1
            if case["own"] == 2:
                x = np.append(x, f.max() + 1e-8).tolist()
            kw["frequency_points"] = x
        if case["ir"]:
            kw.update(ir_grid_points=ir, ir_grid_map=m)
            if case["wgt"]:
                kw["ir_grid_weights"] = w
        k = kaccum.KappaDOSTHM(prop if case["wgt"] or not case["ir"] else weighted, f, bz,
                               num_sampling_points=case["nsp"], **kw)
        fp, got = k.get_kdos()
        if x is None:
            same(len(fp), case["nsp"], "number of sampling points")
        fps, gots = [fp] * nt, got
        vals = [f] * nt
    elif what == "prop":
        gots, fps = kaccum.run_prop_dos(f, weighted, m, ir, case["nsp"], bz)
        vals = [f] * nt
    else:
        mfp = np.ascontiguousarray(rng.random((nt, len(ir), nb)) * 10 ** rng.uniform(-1, 4))
        gots, fps = kaccum.run_mfp_dos(mfp, weighted, m, ir, case["nsp"], bz)
        vals = mfp
    same(f, kept[0], "frequencies given")
    same(prop, kept[1], "mode values given")
    require(np.shape(gots) == (nt, len(fps[0]), 2, ne), f"shape of spectra {np.shape(gots)}")
    for t in range(nt):
        v = vals[t]
        if x is not None:
            same(fps[t], np.array(x), "sampling points")
        else:
            close(fps[t], np.linspace(v.min(), v.max() + 1e-8, case["nsp"]), "sampling points", rtol=1e-12, atol=0)
        ref, bad = spectra(v, weighted[t:t + 1], bz, None, ir, m, np.array(fps[t]), None)
        scale = np.abs(weighted[t]).sum() / n
        for j, name in enumerate(("cumulative", "density")):
            ok = ~bad
            if j == 1 or case["values"] in ("flat", "coarse"):
                g, e = gots[t][ok, j], ref[0][ok, j]
            else:
                ok = np.array([True] * len(bad)) if case["values"] != "neg" else ok
                ok = ~bad
                g, e = gots[t][ok, j], ref[0][ok, j]
            close(g, e, f"{name} spectrum", rtol=1e-7, atol=1e-9 * scale, sig=f"{name} spectrum")
        top = np.array(fps[t]) >= v.max() + 0.9e-8
        total = weighted[t].sum(axis=(0, 1)) / n
        for i in np.where(top)[0]:
            close(gots[t][i, 0], total, "end of the cumulative spectrum", rtol=1e-7, atol=1e-6 * scale)
        below = np.array(fps[t]) < v.min() - 1e-7
        close(gots[t][below], np.zeros((below.sum(), 2, ne)), "spectrum below all modes", atol=1e-14 * scale)
    return dict(nontrivial=n > 1 and case["nsp"] > 2 and case["values"] != "flat",
                labels=["lib", what, case["grid"]["kind"], "ir" if case["ir"] else "all", case["values"]])


def smearing(case, rng):
    from phono3py.other.kaccum import GammaDOSsmearing
    ng, nb, nt = int(rng.integers(1, 20)), case["nb"], case["nt"]
    f = rng.random((ng, nb)) * 10 - (2 if case["values"] == "neg" else 0)
    g = rng.random((nt, ng, nb))
    w = rng.integers(1, 9, size=ng)
    nsp = max(2, case["nsp"])
    got = GammaDOSsmearing(g, f, w, sigma=case["sigma"], num_sampling_points=nsp).get_gdos()
    x = np.linspace(f.min(), f.max() + 1e-8, nsp)
    close(got[0], x, "sampling points of smearing", rtol=1e-12)
    s = case["sigma"] or (x.max() - x.min()) / 100
    e = np.exp(-(f[None] - x[:, None, None]) ** 2 / (2 * s * s)) / np.sqrt(2 * np.pi) / s
    ref = np.einsum("g,tgb,xgb->tx", w, g, e) / w.sum()
    close(got[1][:, :, 1], ref, "smeared spectrum", rtol=1e-9, atol=1e-12)
    return dict(nontrivial=ng > 1 or nb > 1, labels=["smearing", "sigma" if case["sigma"] else "auto"])


def paths(case, rng):
    from phono3py.other.kaccum import get_mfp
    ng, nb, nt = int(rng.integers(1, 9)), case["nb"], case["nt"]
    g = rng.random((nt, ng, nb)) * (rng.random((nt, ng, nb)) < 0.8)
    if case["values"] == "neg":
        g -= 0.2
    v = rng.normal(size=(ng, nb, 3))
    got = get_mfp(g, v)
    ref = np.where(g > 0, np.linalg.norm(v, axis=2)[None] / (4 * np.pi * np.where(g > 0, g, 1)), 0)
    close(got, ref, "mean free path", rtol=1e-12, atol=0)
    return dict(nontrivial=ng > 1, labels=["lib-mfp"])


@contextlib.contextmanager
def scratch():
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(home)


def command(argv):
    """Output of phono3py-kaccum."""
    from phono3py.cui import kaccum_script
    out, err, old = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = ["phono3py-kaccum"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            kaccum_script.main()
    except SystemExit as e:
        require(not e.code, f"phono3py-kaccum {argv[:-1]} exits with {e.code}: {err.getvalue()[-200:]}", sig="command fails")
    except Exception as e:
        require(False, f"phono3py-kaccum {argv[:-1]} raised {e!r}"[:300], sig=f"command raises {type(e).__name__}")
    finally:
        sys.argv = old
    return out.getvalue()


def blocks(text):
    """Numbers of an output, block by block."""
    res, cur, head = [], [], []
    for line in text.splitlines():
        if line.startswith("#"):
            head.append(line)
        elif line.strip():
            cur.append([float(t) for t in line.split()])
        elif cur:
            res.append(np.array(cur))
            cur = []
    if cur:
        res.append(np.array(cur))
    return res, [h for h in head if h.endswith(" K")]


def script(case):
    import h5py
    from phono3py.file_IO import write_phonon_to_hdf5
    from phono3py.phonon.grid import get_ir_grid_points
    what = case["what"]
    phonon = case["file"] == "phonon" and what == "dos"
    with scratch():
        _, ph = c14.build(case)
        bz = ph.grid
        n = int(np.prod(bz.D_diag))
        if n > 80:
            raise Reject("too many grid points")
        ph.save(case["yaml"])
        ir, w, m = (np.array(a) for a in get_ir_grid_points(bz))
        # Rounding of the lattice in the file may choose another one of equally long main diagonals.
        from phono3py.interface.phono3py_yaml import Phono3pyYaml
        from phono3py.phonon.grid import BZGrid
        y = Phono3pyYaml()
        y.read(case["yaml"])
        close(y.primitive.cell, ph.primitive.cell, "lattice in yaml", rtol=1e-12)
        bz = BZGrid(bz.D_diag if bz.grid_matrix is None else bz.grid_matrix, lattice=y.primitive.cell,
                    symmetry_dataset=ph.primitive_symmetry.dataset)
        same(bz.D_diag, ph.grid.D_diag, "mesh of the grid")
        same(np.array(bz.addresses)[np.array(bz.grg2bzg)] % np.array(bz.D_diag),
             np.array(ph.grid.addresses)[np.array(ph.grid.grg2bzg)] % np.array(bz.D_diag), "grid")
        argv = []
        if phonon:
            ph.run_phonon_solver()
            f, e, adrs = ph.get_phonon_data()
            fn = write_phonon_to_hdf5(f, e, adrs, ph.mesh_numbers, bz_grid=bz, ir_grid_points=np.array(bz.grg2bzg)[ir],
                                      ir_grid_weights=w, filename=case["name"])
            freq = np.array(f)[np.array(bz.grg2bzg)[ir]]
            temps = [0.0]
            if not case["star"]:
                ir, w, m = np.arange(n), np.ones(n, dtype=int), np.arange(n)
                freq = np.array(f)[np.array(bz.grg2bzg)]
                argv.append("--no-gridsym")
            data = {}
        else:
            br = c14.run(ph, case, is_full_pp=what == "pqj", write_kappa=True, output_filename=case["name"])
            require(br is not None, "no result")
            fn = sorted(glob.glob("kappa*.hdf5"))[0]
            with h5py.File(fn) as h:
                data = {k: h[k][()] for k in h}
            if len(data["weight"]) == n:
                ir, w, m = np.arange(n), np.ones(n, dtype=int), np.arange(n)
            freq = np.array(data["frequency"])
            temps = [float(t) for t in case["temps"]]
        shown = list(range(len(temps)))
        one = what in ("gv", "gv-norm", "dos", "pqj")
        if what != "kappa":
            argv.append("--" + what)
        if case["show"]:
            argv.append("--" + case["show"])
        if case["nsp"] != 100:
            argv += ["--nsp", str(case["nsp"])]
        if case["at"] is not None and not one:
            shown = [case["at"] % len(temps)]
            argv += ["--temperature", repr(temps[shown[0]])]
        smear = case["smear"] and what in SCALARS
        if smear:
            argv.append("--smearing")
        got, heads = blocks(command(argv + [fn]))
        axis = None
        if what == "kappa":
            prop = data["mode_kappa"]
        elif what == "gv":
            prop = data["gv_by_gv"][None] / ph.primitive.volume
        elif what == "mfp":
            prop = data["mode_kappa"]
            g = data["gamma"]
            axis = np.where(g > 0, np.linalg.norm(data["group_velocity"], axis=2) / (4 * np.pi * np.where(g > 0, g, 1)), 0)
        else:
            p = {"gamma": lambda: data["gamma"], "cv": lambda: data["heat_capacity"], "dos": lambda: np.ones(freq.shape)[None],
                 "tau": lambda: np.where(data["gamma"] > 0, 1 / (4 * np.pi * np.where(data["gamma"] > 0, data["gamma"], 1)), 0),
                 "pqj": lambda: data["ave_pp"][None], "gv-norm": lambda: np.linalg.norm(data["group_velocity"], axis=2)[None]}[what]()
            prop = p[..., None]
            if not smear:
                prop = prop * w[None, :, None, None]
        if one:
            shown = [0]
    require(len(got) == len(shown), f"{len(got)} blocks were printed, {len(shown)} expected")
    if what not in ("gv", "gv-norm", "pqj") and not phonon:
        same([int(h.split()[1]) for h in heads], [int(temps[i]) for i in shown], "temperatures printed")
    if (freq <= 0).sum() > 3:
        freq = np.where(freq > 0, freq, 0)
    for table, i in zip(got, shown):
        v = freq if axis is None else axis[i]
        x = np.linspace(v.min(), v.max() + 1e-8, case["nsp"])
        p = prop[i:i + 1]
        if smear:
            s = (x.max() - x.min()) / 100
            e = np.exp(-(v[None] - x[:, None, None]) ** 2 / (2 * s * s)) / np.sqrt(2 * np.pi) / s
            ref = np.zeros((1, len(x), 2, 1))
            ref[0, :, 1, 0] = np.einsum("g,gb,xgb->x", w, p[0, :, :, 0], e) / w.sum()
            bad = np.zeros(len(x), dtype=bool)
        else:
            ref, bad = spectra(v, p, bz, None, ir, m, x, None)
        ref = ref[0]
        if p.shape[3] == 6 and case["show"]:
            ref = ref[..., :3].sum(axis=-1, keepdims=True) / (3 if case["show"] == "average" else 1)
        require(table.shape == (len(x), 1 + 2 * ref.shape[2]), f"shape of table {table.shape}")
        prec = 1.1e-5 if case["show"] else 1.1e-6
        close(table[:, 0], x, "printed sampling points", rtol=1e-9, atol=prec)
        ne = ref.shape[2]
        scale = np.abs(p).sum() / n
        for j, name in enumerate(("cumulative", "density")):
            tab = table[:, 1 + j * ne:1 + (j + 1) * ne]
            close(tab[~bad], ref[~bad, j], f"printed {name} of {what}", rtol=2e-6, atol=prec + 1e-7 * scale,
                  sig=f"printed {name}")
        if not smear:
            total = p.sum(axis=(1, 2))[0] / n
            if what in ("kappa", "mfp"):
                close(total, br.kappa[0][i], "sum of mode conductivities", rtol=1e-9, atol=1e-12)
            if p.shape[3] == 6 and case["show"]:
                total = np.array([total[:3].sum() / (3 if case["show"] == "average" else 1)])
            close(table[-1, 1:1 + ne], total, f"printed end of {what}", rtol=2e-6, atol=prec + 2e-6 * scale, sig="printed end")
    return dict(nontrivial=n > 1, labels=["script", what, case["file"] if phonon else "kappa", case["show"], case["kind"]])
