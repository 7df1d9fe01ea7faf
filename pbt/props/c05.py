"""C05: phonons on the grid."""
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons
from pbt.core import Reject, close, require, same

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="any", size=32, psc=True, wrap=True)))
    k = draw(st.sampled_from(["mesh", "mesh", "iso", "grg"]))
    d["kind"] = k
    if k == "mesh":
        d["mesh"] = [draw(ints(1, 4)) for _ in range(3)]
    elif k == "iso":
        d["mesh"] = [draw(ints(1, 4))] * 3
    else:
        d["len"] = draw(ints(4, 26)) / 2.0
    d["sym"] = draw(ints(0, 3)) and 1
    d["msym"] = draw(ints(0, 3)) and 1
    d["nac"] = draw(st.sampled_from(["", "", "wang", "gonze"]))
    if d["nac"] and draw(st.booleans()):
        d["dir"] = draw(st.sampled_from([[1, 0, 0], [0, 0, 1], [1, 1, 0], [1, 2, 3], [-1, 1, 1]]))
    d["compact"] = draw(ints(0, 1))
    d["uplo"] = draw(st.sampled_from("LU"))
    d["lapacke"] = draw(ints(0, 2)) == 0 and 1 or 0
    if not d["nac"] and draw(ints(0, 2)) == 2:
        d["scale"] = draw(ints(5, 20)) / 10.0
    if draw(ints(0, 3)) == 3:
        d["fac"] = draw(ints(5, 20)) / 10.0
    ops = st.one_of(
        st.tuples(st.just("some"), st.lists(ints(0, 300), min_size=1, max_size=6)),
        st.tuples(st.just("all")), st.tuples(st.just("rot")), st.tuples(st.just("gp"), ints(0, 300)),
        st.tuples(st.just("gamma")), st.tuples(st.just("gp"), st.just(-1)))
    d["ops"] = draw(st.lists(ops, min_size=1, max_size=5))
    return d


def strategy(tier):
    return strategy_()


class lapacke:
    """Swap the compiled module for the one linked with LAPACKE."""

    mods = {}

    def __init__(self, on):
        self.on = on

    def __enter__(self):
        if not self.on:
            return
        import importlib.machinery
        import importlib.util
        import os

        import phono3py

        self.saved = {}
        for n in ("_phono3py", "_phononcalc"):
            full = f"phono3py.{n}"
            __import__(full)
            if n not in lapacke.mods:
                fn = os.path.join(os.environ["PBT_LIB_LAPACKE"], n + ".abi3.so")
                ld = importlib.machinery.ExtensionFileLoader(full, fn)
                sp = importlib.util.spec_from_file_location(full, fn, loader=ld)
                m = importlib.util.module_from_spec(sp)
                ld.exec_module(m)
                lapacke.mods[n] = m
            self.saved[n] = sys.modules[full]
            sys.modules[full] = lapacke.mods[n]
            setattr(phono3py, n, lapacke.mods[n])

    def __exit__(self, *a):
        if not self.on:
            return
        import phono3py

        for n, m in self.saved.items():
            sys.modules[f"phono3py.{n}"] = m
            setattr(phono3py, n, m)


def check(case):
    with lapacke(case["lapacke"]):
        if case["lapacke"]:
            import phono3py._phono3py as phono3c
            require(phono3c.include_lapacke(), "LAPACKE module not in use")
        return check_(case)


def check_(case):
    from phonopy.units import VaspToTHz

    c = model.Crystal(case["crystal"])
    kw = {}
    if case.get("fac"):
        kw["frequency_factor_to_THz"] = VaspToTHz * case["fac"]
    ph = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), is_mesh_symmetry=bool(case["msym"]),
                            nac=bool(case["nac"]), compact=bool(case["compact"]), fc=False,
                            use_grg=case["kind"] == "grg", **kw)
    if case["nac"]:
        p = c.born(ph.primitive)
        p["method"] = case["nac"]
        ph.nac_params = p
    if case["kind"] == "grg":
        mesh = min(case["len"], (ph.primitive.volume * 100) ** (1.0 / 3))
        if not case["sym"]:
            raise Reject("generalized grid needs symmetry")
    else:
        mesh = case["mesh"]
    model.set_mesh(ph, mesh)
    model.set_fc(ph, c, compact=bool(case["compact"]), fc3=False)
    n3 = len(ph.supercell)
    if n3 <= 16:
        ph.fc3 = np.zeros((n3, n3, n3, 3, 3, 3))
    qdir = case.get("dir")
    ph.init_phph_interaction(nac_q_direction=None if qdir is None else np.array(qdir, dtype=float),
                             frequency_scale_factor=case.get("scale"), lapack_zheev_uplo=case["uplo"])
    pp = ph.phph_interaction
    bz = pp.bz_grid
    q = gridref.qpoints(bz)
    ng = len(q)
    if ng > 400:
        raise Reject("too big")
    full = c.potential(ph.phonon_supercell).fc2()
    if case.get("scale"):
        full = full * case["scale"] ** 2
    fac = VaspToTHz * case.get("fac", 1.0)
    gam = int(bz.gp_Gamma)
    require((np.array(bz.addresses)[gam] == 0).all(), "gp_Gamma is not q=0")
    # dynamical matrices
    if case["nac"] == "gonze":
        dms = gonze(ph, case, q, qdir)
        dm0 = gonze(ph, case, q[gam:gam + 1], None)[0]
    else:
        nacp = c.born(ph.primitive) if case["nac"] else None
        if nacp is not None and case.get("scale"):
            nacp["factor"] *= case["scale"] ** 2
        h = phonons.Harmonic(ph.phonon_supercell, ph.phonon_primitive, full, nac=nacp)
        dms = h.dynmat(q, qdir)
        dm0 = h.dynmat([[0, 0, 0]], None)[0]
    # Gonze: the short-range force constants carry a round-trip error
    atol = max(1e-9, np.abs(full).max() / ph.primitive.masses.min() * (3e-8 if case["nac"] == "gonze" else 1e-11))
    labels = [case["kind"], case["nac"] or "no-nac", "compact" if case["compact"] else "full"]
    if qdir is not None:
        labels.append("q-dir")
    neg = False
    cut = 1e-4
    seen = set()
    for op in case["ops"]:
        if op[0] == "gp" and op[1] < 0:
            op = ["gp", gam]
        labels.append("op-" + op[0])
        if op[0] == "some":
            gps = sorted({g % ng for g in op[1]}, key=lambda x: (x * 7919) % 101)
            pp.run_phonon_solver(np.array(gps, dtype="int64"))
            must = gps
        elif op[0] == "all":
            pp.run_phonon_solver()
            must = range(ng)
        elif op[0] == "rot":
            # the rotation needs force constants with the crystal's symmetry
            if not case["sym"] or case["nac"] or len(ph.phonon_supercell_symmetry.pointgroup_operations) != len(
                    ph.primitive_symmetry.pointgroup_operations):
                continue
            pp.run_phonon_solver(solve_by_rotation=True)
            must = range(ng)
        elif op[0] == "gamma":
            if qdir is not None:
                continue
            pp.run_phonon_solver_at_gamma()
            must = []
        else:
            try:
                pp.set_grid_point(op[1] % ng)
            except RuntimeError as e:
                if "Gamma" in str(e) and qdir is not None and op[1] % ng != gam:
                    break
                raise
            tri = np.array(pp.get_triplets_at_q()[0])
            gps = np.unique(tri)
            pp.run_phonon_solver(np.array(gps, dtype="int64"))
            must = gps.tolist()
        f, v, done = [np.array(x) for x in pp.get_phonons()]
        require(all(done[g] for g in must), f"phonons not solved after {op[0]}")
        for g in np.nonzero(done)[0]:
            g = int(g)
            want = dms[g]
            err = mismatch(f[g], v[g], want, fac, atol)
            if err and g == gam and qdir is not None:
                # without the direction, unless Gamma itself is the grid point
                if not (op[0] == "gp" and op[1] % ng == gam):
                    err = mismatch(f[g], v[g], dm0, fac, atol) and err
            require(not err, lambda: f"grid point {g} q={q[g].tolist()} after {op[0]}: {err}",
                    f"phonons differ ({err.split(':')[0] if err else ''})")
            if f[g].min() < -1e-2:
                neg = True
        seen |= set(must)
    if neg:
        labels.append("imaginary")
    return dict(nontrivial=len(seen) > 1, labels=labels + (["lapacke"] if case["lapacke"] else []))


def mismatch(f, v, D, fac, atol):
    w = np.linalg.eigvalsh(D)
    scale = max(np.abs(w).max(), 1e-10)
    lam = np.sign(f) * (f / fac) ** 2
    lam = np.sign(f) * np.abs(lam)
    if not np.isfinite(f).all():
        return "non-finite frequency"
    if np.abs(lam - w).max() > 1e-8 * scale + atol:
        return f"frequencies: {f.tolist()} expected {(np.sign(w) * np.sqrt(abs(w)) * fac).tolist()}"
    o = v.conj().T @ v
    if np.abs(o - np.eye(len(f))).max() > 1e-8:
        return "eigenvectors not orthonormal"
    r = np.abs(D @ v - v * lam[None]).max()
    if r > 1e-7 * scale + atol:
        return f"eigenvectors: residual {r:.2e}"
    return None


def gonze(ph, case, q, qdir):
    """Dynamical matrices by phonopy's own class (separate library)."""
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

    dm = get_dynamical_matrix(ph.fc2, ph.phonon_supercell, ph.phonon_primitive, nac_params=ph.nac_params,
                              frequency_scale_factor=case.get("scale"))
    out = []
    for x in q:
        if np.abs(x).max() < 1e-12 and qdir is not None:
            dm.run(x, q_direction=np.array(qdir, dtype=float))
        else:
            dm.run(x)
        out.append(np.array(dm.dynamical_matrix))
    return out
