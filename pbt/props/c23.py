"""C23: arrays written to result files are read back unchanged, and files do not collide."""
import contextlib
import glob
import io
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt.core import require, same

ints = st.integers
pick = st.sampled_from

# Mesh numbers of each pool have distinct digit strings, apart from pool 1.
MESHES = [[[2, 2, 2], [1, 1, 1], [11, 11, 11], [2, 2, 3], [3, 2, 2], [10, 10, 10]],
          [[1, 11, 1], [11, 1, 1], [1, 1, 11]]]
GPS = [None, 0, 1, 11, 12, 111]
BANDS = [None, 0, 1, 10, 11]
SIGMAS = [None, 0.1, 0.01, 1.0, 10.0, 0.15, 0.105, 0.000001, 100.0]
NEAR = [0.1000001, 0.1000002]
CUTS = [None, 3.0, 30.0, 2.5]
NAMES = [None, "a", "b", "ab"]
TEMPS = [None, 0.0, 10.0, 100.0, 300.0, 300.5]
EPS = [0.1, 0.01, 1e-6, 1e-7, 10.0, 0.15]
KINDS = ["kappa", "collision", "pp", "phonon", "detail", "fc3", "fc2", "delta", "spectral", "coleigs", "unitary",
         "grid", "gammas_txt", "jdos_txt", "deltas_txt", "spectral_txt", "dataset", "fcm"]
# The identifying parts of each kind of file.
PARTS = {"kappa": "mgbscn", "collision": "mgbscn", "pp": "mgscn", "phonon": "mn", "detail": "mgbscn", "fc3": "f", "fc2": "f",
         "delta": "mgBen", "spectral": "mgBsn", "coleigs": "mscn", "unitary": "mscn", "grid": "mn",
         "gammas_txt": "mgBstvyn", "jdos_txt": "mgstyn", "deltas_txt": "mgBetyn", "spectral_txt": "mgBstyn",
         "dataset": "f", "fcm": "f"}
KAPPA_KEYS = ["frequency", "group_velocity", "gv_by_gv", "velocity_operator", "heat_capacity", "kappa", "mode_kappa",
              "kappa_P_exact", "kappa_P_RTA", "kappa_C", "kappa_TOT_exact", "kappa_TOT_RTA", "mode_kappa_P_exact",
              "mode_kappa_P_RTA", "mode_kappa_C", "kappa_RTA", "mode_kappa_RTA", "f_vector", "gamma_N", "gamma_U",
              "qpoint"]


@st.composite
def strategy_(draw):
    n = draw(ints(1, 7))
    pool = 1 if draw(ints(0, 11)) == 11 else 0
    near = draw(ints(0, 11)) == 11
    few = draw(st.booleans())
    kinds = draw(st.lists(pick(KINDS), min_size=1, max_size=2 if few else 5))
    ops = []
    for i in range(n):
        o = dict(kind=draw(pick(kinds)), seed=draw(ints(0, 10 ** 6)), comp=draw(pick(["gzip", "lzf", None, 9, 0, 4])),
                 m=draw(ints(0, len(MESHES[pool]) - 1)), g=draw(ints(0, 5)), b=draw(ints(0, 4)),
                 B=draw(st.lists(ints(0, 11), min_size=1, max_size=3, unique=True)),
                 s=draw(ints(0, len(SIGMAS) - 1)) if not near else -draw(ints(1, 2)), c=draw(ints(0, 3)),
                 n=draw(ints(0, 3)), t=draw(ints(0, 5)), e=draw(ints(0, 5)), v=draw(pick([None, 1, 2])),
                 y=draw(pick([1, 1, 0])), size=draw(ints(1, 5)), extra=draw(ints(0, 255)))
        # Mostly vary one part of an earlier identity.
        if ops and draw(ints(0, 3)) != 3:
            keep = dict(draw(pick(ops)))
            for k in ("seed", "comp", "size", "extra"):
                keep[k] = o[k]
            part = draw(pick("mgbBscntevy"))
            keep[part] = o[part]
            o = keep
        ops.append(o)
    return dict(ops=ops, pool=pool, refuse=draw(ints(0, 3)), subset=draw(ints(0, 3)))


def strategy(tier):
    return strategy_()


def identity(o, pool):
    """Values of the parts."""
    v = dict(m=tuple(MESHES[pool][o["m"]]), g=GPS[o["g"]], b=BANDS[o["b"]], B=tuple(o["B"]),
             s=SIGMAS[o["s"]] if o["s"] >= 0 else NEAR[-o["s"] - 1], c=CUTS[o["c"]], n=NAMES[o["n"]], t=TEMPS[o["t"]],
             e=EPS[o["e"]], v=o["v"], y=bool(o["y"]), f=NAMES[o["n"]] or "x")
    if o["kind"] in ("gammas_txt", "jdos_txt", "deltas_txt", "spectral_txt", "delta", "spectral", "pp") and v["g"] is None:
        v["g"] = 2
    if o["kind"] in ("delta", "spectral"):
        v["B"] = tuple(sorted(v["B"]))
    if v["s"] is None:
        v["c"] = None
    if v["b"] is not None and v["g"] is None:
        v["g"] = 2
    if v["n"] is not None:
        v["y"] = True       # A suffix replaces the mark of unused mesh symmetry.
    return v


def ident(o, pool):
    v = identity(o, pool)
    return (o["kind"],) + tuple((p, v[p]) for p in PARTS[o["kind"]])


def numbers(rng, shape, kind=0):
    a = rng.normal(size=shape) * 10.0 ** rng.integers(-12, 12)
    if kind % 5 == 1:
        a = np.where(rng.random(shape) < 0.3, [-0.0, 1e-300, 5e-324, np.inf, np.nan, 1.7e308][rng.integers(6)], a)
    if kind % 5 == 2:
        a = np.zeros(shape)
    return np.ascontiguousarray(a)


def payload(o, v):
    """Arrays to write, by name in the file."""
    rng = np.random.default_rng(o["seed"])
    n, x = o["size"], o["extra"]
    nb, nt = 3 * rng.integers(1, 3), n
    ng = int(rng.integers(1, 5))
    r = lambda *s: numbers(rng, s, x)
    temps = np.sort(rng.random(nt)) * 1000
    k = o["kind"]
    d = {}
    if k in ("fc2", "fc3"):
        npat, ns = (n, n * int(1 + x % 3))
        first = npat if x & 4 else ns
        shape = (first, ns, 3, 3) if k == "fc2" else (first, min(ns, 5), min(ns, 5), 3, 3, 3)
        if k == "fc3":
            ns = min(ns, 5)
            first = min(first, ns)
            npat = min(npat, ns)
            shape = (first, ns, ns, 3, 3, 3)
        d[{"fc2": "force_constants", "fc3": "fc3"}[k]] = r(*shape)
        if x & 8:
            d["p2s_map"] = np.array(sorted(rng.permutation(ns)[:npat]), dtype="intc")
    elif k == "kappa":
        d["temperature"] = temps
        # A mode or grid point at which results have no axes for all others.
        tail = (ng, nb)
        if v["g"] is not None:
            tail = (nb,) if v["b"] is None else ()
        d["gamma"] = r(nt, *tail) if tail else r(nt)
        names = [w for i, w in enumerate(KAPPA_KEYS) if (o["seed"] + i * 7) % 3 != 0]
        for w in names:
            if w in ("gamma_N", "gamma_U"):
                d[w] = r(*d["gamma"].shape)
            elif w == "qpoint":
                d[w] = r(ng, 3)
            elif w == "frequency":
                d[w] = r(ng, nb) if tail else np.float64(rng.random())
            elif w == "velocity_operator":
                d[w] = r(ng, nb, nb, 3) + 1j * r(ng, nb, nb, 3)
            else:
                d[w] = r(nt, ng, 6)
        if x & 1:
            d["gamma_isotope"] = r(*tail) if tail else np.float64(rng.random())
        if x & 2:
            d["ave_pp"] = r(*tail) if tail else np.float64(rng.random())
        if x & 4:
            d["weight"] = rng.integers(1, 9, size=ng).astype("int64")
        if x & 8:
            d["kappa_unit_conversion"] = float(rng.random())
        if x & 16:
            d["boundary_mfp"] = float(rng.random() * 1e6)
    elif k == "collision":
        d["temperature"] = temps
        d["gamma"] = r(nt, ng, nb)
        d["collision_matrix"] = r(nt, ng, nb, 3, ng, nb, 3) if x & 1 else r(nt, ng * nb, ng * nb)
        if x & 2:
            d["gamma_isotope"] = r(ng, nb)
    elif k == "pp":
        d["pp"] = np.abs(r(n, int(rng.integers(1, 7)), nb, nb))
        d["pp"] = np.where(np.isfinite(d["pp"]), d["pp"], 1.0)
        if x & 1:
            d["g_zero"] = (rng.random(d["pp"].shape) < [0.0, 0.3, 0.9, 1.0][x // 2 % 4]).astype("byte")
            d["pp"][d["g_zero"] == 1] = 0
        else:
            for w in ("triplet", "weight", "triplet_map", "triplet_all"):
                if rng.random() < 0.6:
                    d[w] = rng.integers(0, 99, size=(n, 3) if w in ("triplet", "triplet_all") else n).astype("int64")
    elif k == "phonon":
        d["frequency"] = r(ng, nb)
        d["eigenvector"] = r(ng, nb, nb) + 1j * r(ng, nb, nb)
        d["grid_address"] = rng.integers(-5, 99, size=(ng, 3)).astype("int64")
        if x & 1:
            d["ir_grid_points"] = np.arange(ng, dtype="int64")
            d["ir_grid_weights"] = rng.integers(1, 9, size=ng).astype("int64")
    elif k == "detail":
        d["temperature"] = temps
        d["gamma_detail"] = r(nt, ng, nb, nb)
        d["triplet"] = rng.integers(0, 99, size=(ng, 3)).astype("int64")
        d["weight"] = rng.integers(0, 99, size=ng).astype("int64")
        if x & 1:
            d["frequency_point"] = r(n)
        if x & 2:
            d["triplet_map"] = rng.integers(0, 99, size=ng).astype("int64")
            d["triplet_all"] = rng.integers(0, 99, size=(ng, 3)).astype("int64")
    elif k == "delta":
        d["temperature"] = temps
        d["delta"] = r(nt, len(v["B"]), n)
        if x & 1:
            d["frequency_points"] = r(n)
        if x & 2:
            d["frequency"] = r(nb)
    elif k == "spectral":
        d["temperature"] = temps
        for w in ("spectral_function", "shift", "half_linewidth"):
            d[w] = r(nt, len(v["B"]), n)
        if x & 1:
            d["frequency_point"] = r(n)
        if x & 2:
            d["frequency"] = r(nb)
    elif k == "coleigs":
        d["temperature"] = temps
        d["collision_eigenvalues"] = r(nt, ng * nb)
    elif k == "unitary":
        d["temperature"] = temps
        if x & 1:
            d["unitary_matrix"] = r(nt, ng * nb, ng * nb)
        if x & 2:
            d["solver"] = 4
    elif k == "grid":
        d["grid_address"] = rng.integers(-9, 99, size=(ng, 3)).astype("int64")
        d["grid_mapping_table"] = rng.integers(0, 99, size=ng).astype("int64")
    elif k == "fcm":
        d["collision_matrix"] = r(ng, nb, ng, nb)
    elif k == "dataset":
        for w in ("displacements", "forces"):
            d["dataset/" + w] = r(n, 4, 3)
            if x & 1:
                d["phonon_dataset/" + w] = r(n, 2, 3)
        if x & 2:
            d["dataset/supercell_energies"] = r(n)
    else:
        d["x"] = np.round(np.sort(rng.random(n)) * 40 - 5, 7)
        d["y"] = rng.normal(size=(n,) if k != "jdos_txt" else (n, 2)) * 10.0 ** rng.integers(-20, 9)
    return d


def write(o, v, d):
    """Write by the function of the library and return the name of the file."""
    from phono3py import file_IO as f
    k, m, comp = o["kind"], v["m"], o["comp"]
    if k == "fc2":
        name = f"fc2-{v['f']}.hdf5"
        f.write_fc2_to_hdf5(d["force_constants"], filename=name, p2s_map=d.get("p2s_map"), compression=comp,
                            physical_unit="eV/angstrom^2" if o["extra"] & 16 else None)
        return name
    if k == "fc3":
        name = f"fc3-{v['f']}.hdf5"
        f.write_fc3_to_hdf5(d["fc3"], filename=name, p2s_map=d.get("p2s_map"), compression=comp)
        return name
    if k == "fcm":
        name = f"fcm-{v['f']}.hdf5"
        f.write_full_collision_matrix(d["collision_matrix"], filename=name)
        return name
    if k == "dataset":
        name = f"datasets-{v['f']}.hdf5"
        g = {}
        for w in d:
            a, b = w.split("/")
            g.setdefault(a, {})[b] = d[w]
        f.write_datasets_to_hdf5(g["dataset"], g.get("phonon_dataset"), filename=name, compression=comp)
        return name
    if k == "grid":
        return f.write_grid_address_to_hdf5(d["grid_address"], m, d["grid_mapping_table"], compression=comp,
                                            filename=v["n"])
    if k == "phonon":
        return f.write_phonon_to_hdf5(d["frequency"], d["eigenvector"], d["grid_address"], m,
                                      ir_grid_points=d.get("ir_grid_points"), ir_grid_weights=d.get("ir_grid_weights"),
                                      compression=comp, filename=v["n"])
    if k == "gammas_txt":
        return f.write_imag_self_energy_at_grid_point(
            v["g"], v["B"], m, d["x"], d["y"], sigma=v["s"], temperature=v["t"], scattering_event_class=v["v"],
            filename=v["n"], is_mesh_symmetry=v["y"])
    if k == "jdos_txt":
        t = None if v["t"] is None else [v["t"]]
        return f.write_joint_dos(v["g"], m, d["x"], [d["y"]], sigma=v["s"], temperatures=t, filename=v["n"],
                                 is_mesh_symmetry=v["y"])
    if k == "deltas_txt":
        return f.write_real_self_energy_at_grid_point(v["g"], v["B"], d["x"], d["y"], m, v["e"], v["t"], filename=v["n"],
                                                      is_mesh_symmetry=v["y"])
    if k == "spectral_txt":
        return f.write_spectral_function_at_grid_point(v["g"], v["B"], d["x"], d["y"], m, v["t"], sigma=v["s"],
                                                       filename=v["n"], is_mesh_symmetry=v["y"])
    if k == "delta":
        return f.write_real_self_energy_to_hdf5(v["g"], v["B"], d["temperature"], d["delta"], m, v["e"],
                                                frequency_points=d.get("frequency_points"),
                                                frequencies=d.get("frequency"), filename=v["n"])
    if k == "spectral":
        return f.write_spectral_function_to_hdf5(
            v["g"], v["B"], d["temperature"], d["spectral_function"], d["shift"], d["half_linewidth"], m, sigma=v["s"],
            frequency_points=d.get("frequency_point"), frequencies=d.get("frequency"), filename=v["n"])
    sc = dict(sigma=v["s"], sigma_cutoff=v["c"], filename=v["n"])
    before = {p: os.stat(p).st_mtime_ns for p in glob.glob("*")}
    if k == "coleigs":
        f.write_collision_eigenvalues_to_hdf5(d["temperature"], m, d["collision_eigenvalues"], **sc)
        name = None
    elif k == "unitary":
        f.write_unitary_matrix_to_hdf5(d["temperature"], m, unitary_matrix=d.get("unitary_matrix"), solver=d.get("solver"),
                                       verbose=bool(o["extra"] & 4), **sc)
        name = None
    elif k == "kappa":
        kw = {("averaged_pp_interaction" if w == "ave_pp" else w): a for w, a in d.items() if w != "temperature"}
        name = f.write_kappa_to_hdf5(d["temperature"], m, grid_point=v["g"], band_index=v["b"], compression=comp,
                                     verbose=bool(o["extra"] & 32), **kw, **sc)
    elif k == "collision":
        name = f.write_collision_to_hdf5(d["temperature"], m, gamma=d["gamma"], gamma_isotope=d.get("gamma_isotope"),
                                         collision_matrix=d["collision_matrix"], grid_point=v["g"], band_index=v["b"], **sc)
    elif k == "pp":
        name = f.write_pp_to_hdf5(m, grid_point=v["g"], compression=comp, verbose=bool(o["extra"] & 32),
                                  check_consistency=bool(o["extra"] & 64), **d, **sc)
    elif k == "detail":
        kw = {("frequency_points" if w == "frequency_point" else w): a for w, a in d.items() if w != "temperature"}
        name = f.write_gamma_detail_to_hdf5(d["temperature"], m, grid_point=v["g"], band_index=v["b"], compression=comp,
                                            verbose=bool(o["extra"] & 32), **kw, **sc)
    if name is None:
        new = [p for p in glob.glob("*") if before.get(p) != os.stat(p).st_mtime_ns]
        require(len(new) == 1, f"{k}: files written: {new}", sig="no file written")
        name = new[0]
    return name


def exact(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape and np.array_equal(got, want, equal_nan=want.dtype.kind in "fc"),
            lambda: f"{what} changed: got {got.ravel()[:6]} shape {got.shape}, expected {want.ravel()[:6]} shape {want.shape}",
            sig=f"{what} changed")


def read(o, v, d, name):
    """Read the file and compare."""
    import h5py
    from phono3py import file_IO as f
    k, m, x = o["kind"], v["m"], o["extra"]
    require(os.path.exists(name), f"{k}: {name} does not exist", sig="file name")
    if name.endswith(".dat"):
        a = np.loadtxt(name, ndmin=2)
        exact(a[:, 0], d["x"], f"{k} abscissa")
        y = d["y"].reshape(len(d["x"]), -1)
        require(a[:, 1:].shape == y.shape and (np.abs(a[:, 1:] - y) <= 1e-15 * np.abs(y)).all(), f"{k}: values changed")
        return
    with h5py.File(name) as h:
        for w in d:
            if k == "pp" and "g_zero" in d:
                continue
            require(w in h, f"{k}: {w} is missing in {name}", sig=f"{k} {w} missing")
            exact(h[w][()], d[w], f"{k} {w}")
        for w, p, off in (("sigma", "s", 0), ("sigma_cutoff_width", "c", 0), ("grid_point", "g", 0), ("band_index", "b", 1)):
            if p in PARTS[k] and k not in ("coleigs", "unitary", "pp") and not (w == "band_index" and "B" in PARTS[k]):
                if k == "spectral" and p == "s":
                    continue
                require((w in h) == (v[p] is not None), f"{k}: {w} in {name}")
                if v[p] is not None:
                    exact(h[w][()], v[p] + off, f"{k} {w}")
        if "B" in PARTS[k]:
            exact(h["band_index"][()], v["B"], f"{k} band_index")
        if k in ("kappa", "detail", "phonon", "grid", "delta", "spectral"):
            exact(h["mesh"][()], m, f"{k} mesh")
        if k == "kappa":
            for w in KAPPA_KEYS + ["gamma_isotope", "ave_pp", "boundary_mfp"]:
                require((w in h) == (w in d), f"kappa: {w} was not given but is in {name}")
    sc = dict(sigma=v["s"], sigma_cutoff=v["c"], filename=v["n"])
    if k == "fc2":
        exact(f.read_fc2_from_hdf5(filename=name, p2s_map=d.get("p2s_map") if x & 32 else None), d["force_constants"], "fc2")
    elif k == "fc3":
        exact(f.read_fc3_from_hdf5(filename=name, p2s_map=d.get("p2s_map") if x & 32 else None), d["fc3"], "fc3")
    elif k == "phonon":
        fr, ev, ga = f.read_phonon_from_hdf5(m, filename=v["n"], verbose=bool(x & 32))
        exact(fr, d["frequency"], "phonon frequency")
        exact(ev, d["eigenvector"], "phonon eigenvector")
        exact(ga, d["grid_address"], "phonon grid_address")
    elif k == "kappa":
        got, _ = f.read_gamma_from_hdf5(m, grid_point=v["g"], band_index=v["b"], **sc)
        for w in ("gamma", "temperature", "gamma_isotope", "ave_pp", "gamma_N", "gamma_U"):
            require((w in got) == (w in d), f"read_gamma_from_hdf5: {w} given {w in d}, returned {w in got}")
            if w in d:
                exact(got[w], d[w], f"read {w}")
    elif k == "collision":
        nt = len(d["temperature"])
        if x & 4:
            ind = "all"
            sel = np.arange(nt)
        else:
            sel = np.array([i for i in range(nt) if (o["seed"] >> i) & 1] or [0])
            ind = sel.tolist()
        c, g, t = f.read_collision_from_hdf5(m, indices=ind, grid_point=v["g"], band_index=v["b"], verbose=bool(x & 32), **sc)
        exact(c, d["collision_matrix"][sel][None], "read collision_matrix")
        exact(g, d["gamma"][sel], "read gamma")
        exact(t, d["temperature"][sel], "read temperature")
        for i, s in ((None, np.arange(nt)), ("all", np.arange(nt)), (sel.tolist(), sel)):
            t = f.read_collision_from_hdf5(m, indices=i, grid_point=v["g"], band_index=v["b"], only_temperatures=True,
                                           verbose=False, **sc)[2]
            exact(t, d["temperature"][s], "read only temperature")
    elif k == "pp":
        pp, gz = f.read_pp_from_hdf5(m, grid_point=v["g"], verbose=bool(x & 32),
                                     check_consistency=bool(x & 64) and "g_zero" in d, **sc)
        if "g_zero" in d:
            exact(gz, d["g_zero"], "g_zero")
            exact(pp, np.where(d["g_zero"] == 0, d["pp"], 0), "pp")
        else:
            require(gz is None, "g_zero appeared")
            exact(pp, d["pp"], "pp")


def refuse(o, v, d, name, which):
    """Readers given something else."""
    from phono3py import file_IO as f
    k, m = o["kind"], v["m"]
    if k in ("fc2", "fc3") and "p2s_map" in d:
        a = d["force_constants" if k == "fc2" else "fc3"]
        if a.shape[0] == a.shape[1]:
            return False
        p = d["p2s_map"]
        bad = [p + 1, np.append(p, p[-1] + 1).astype("intc"), p[:-1], np.roll(p, 1)][which]
        if np.array_equal(bad, p):
            bad = p + 1
        reader = f.read_fc2_from_hdf5 if k == "fc2" else f.read_fc3_from_hdf5
        try:
            reader(filename=name, p2s_map=bad)
        except Exception:
            return True
        require(False, f"{k} with p2s_map {p.tolist()} was read for {bad.tolist()}", sig="foreign p2s_map")
    other = v["n"] + "z" if v["n"] else "z"
    sc = dict(sigma=v["s"], sigma_cutoff=v["c"], filename=other)
    if k == "phonon":
        require(f.read_phonon_from_hdf5(m, filename=other, verbose=False) is None, "phonon of another name was read")
    elif k == "kappa":
        got = f.read_gamma_from_hdf5(m, grid_point=v["g"], band_index=v["b"], **sc)
        require(got[0] is None, "gamma of another name was read")
    elif k == "collision":
        got = f.read_collision_from_hdf5(m, indices="all", grid_point=v["g"], band_index=v["b"], verbose=False, **sc)
        require(got is None, "collisions of another name were read")
    elif k == "pp":
        require(f.read_pp_from_hdf5(m, grid_point=v["g"], verbose=False, **sc) is None, "pp of another name was read")
    else:
        return False
    return True


def blame(a, b):
    """Signature of two calculations sharing one file."""
    d = [p for p, x, y in [(p[0], p, q) for p, q in zip(a[1:], b[1:])] if x != y]
    if d == ["m"]:
        return "file name: mesh digits"
    if d == ["s"]:
        return "file name: sigma digits"
    if a[0] == "delta" and d == ["B"]:
        return "file name: band indices of deltas"
    return f"file name: {a[0]} {''.join(d)}"


def check(case):
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as scratch:
        os.chdir(scratch)
        try:
            return sequence(case)
        finally:
            os.chdir(home)


def sequence(case):
    """Files of several calculations in an empty directory."""
    pool = case["pool"]
    files = {}
    state = {}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for o in case["ops"]:
            v = identity(o, pool)
            d = payload(o, v)
            me = ident(o, pool)
            name = write(o, v, d)
            if name in files and files[name] != me:
                require(False, f"{files[name]} and {me} share {name}", sig=blame(files[name], me))
            files[name] = me
            state[me] = (o, v, d, name)
        known = set(files)
        require(set(glob.glob("*")) == known, f"files {sorted(glob.glob('*'))}, reported {sorted(known)}", sig="file name")
        refused = False
        for me, (o, v, d, name) in state.items():
            read(o, v, d, name)
            refused |= bool(refuse(o, v, d, name, case["refuse"]))
    labels = sorted({o["kind"] for o in case["ops"]})
    if len(state) < len(case["ops"]):
        labels.append("overwritten")
    return dict(nontrivial=len(state) > 1 or refused, labels=labels)
