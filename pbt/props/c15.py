"""C15: results do not depend on how the crystal is described."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model
from pbt.core import Reject, close, require
from pbt.props import c11, c14

ints = st.integers


@st.composite
def strategy_(draw):
    cr = draw(model.crystals(neg=False, sc="sym", size=8, max_atoms=4, wrap=True, psc=True))
    d = dict(crystal=cr)
    if not cr["view"]:
        cr["view"] = {"rot": [1, 2, 0, 3]}
    k = draw(ints(0, 4))
    if k == 4:
        d.update(kind="grg", len=draw(ints(6, 22)) / 2.0)
    elif k == 3 and not cr["view"].get("uni"):
        d.update(model_grid(draw, cr))
    else:
        d.update(kind="iso", mesh=[draw(ints(2, 4))] * 3)
    d["big"] = draw(ints(0, 3)) == 3 and 1 or 0  # the supercell given as unit cell
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 5, 30, 100, 1000]), min_size=1, max_size=2))
    d["sig"] = draw(st.sampled_from([0.1, 0.3, 1.0, 0.2, 0.5, 0.15, None]))
    d["cut"] = draw(st.sampled_from([0.01, 0.01, 0.5]))
    d["sym2"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["msym2"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["msym1"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["compact1"] = draw(ints(0, 1))
    d["compact2"] = draw(ints(0, 1))
    d["gps"] = draw(st.lists(ints(-3, 30), min_size=1, max_size=3))
    d["cond"] = draw(st.sampled_from(["rta", "rta", "rta", "lbte", ""]))
    d["iso"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["cls"] = draw(st.sampled_from([None, None, 1, 2]))
    d["r0"] = draw(ints(0, 9)) != 9 and 1 or 0
    return d


def model_grid(draw, cr):
    g = draw(model.grids(cr, 2, 5))
    return g if g["kind"] != "grg" else dict(kind="iso", mesh=[3] * 3)


def strategy(tier):
    return strategy_()


def describe(case):
    """Base and redescribed crystals as Phono3py objects, rotation and basis change."""
    d = case["crystal"]
    c1 = model.Crystal(d)
    view = d["view"]
    lat0 = c1.prim_lat0
    M = np.rint(np.array(c1.unitcell.cell) @ c1.R @ np.linalg.inv(lat0)).astype(int)  # unit lattice = M lat0 R^T
    s0 = M.T @ c1.supercell_matrix
    base = dict(d, view={}, sc=s0.tolist())
    base.pop("psc", None)
    if c1.phonon_supercell_matrix is not None:
        base["psc"] = (M.T @ c1.phonon_supercell_matrix).tolist()
    c0 = model.Crystal(base)
    L = np.eye(3, dtype=int) if c1.is_conv else M
    if case["big"]:
        from phonopy.structure.cells import get_supercell
        if c1.phonon_supercell_matrix is not None:
            raise Reject("only one supercell")
        s = get_supercell(c1.unitcell, c1.supercell_matrix)
        pm = np.linalg.inv(c1.supercell_matrix.astype(float))
        if c1.primitive_matrix is not None:
            pm = pm @ c1.primitive_matrix
        from phonopy.structure.atoms import PhonopyAtoms
        c1.unitcell = PhonopyAtoms(cell=s.cell, scaled_positions=s.scaled_positions, symbols=s.symbols)
        c1.primitive_matrix = pm
        c1.supercell_matrix = np.eye(3, dtype=int)
    del view
    return c0, c1, c1.R, L


def make(c, case, sym, msym, compact):
    ph = model.phono3py_obj(c, is_symmetry=bool(sym), is_mesh_symmetry=bool(msym), fc=True,
                            compact=bool(compact) and bool(sym), use_grg=case["kind"] == "grg",
                            make_r0_average=bool(case["r0"]), cutoff_frequency=case["cut"])
    model.apply_grid(ph, case, limit=36)
    ph.sigmas = [case["sig"]]
    ph.init_phph_interaction()
    return ph


def wrapkey(q):
    x = q - np.floor(q + 1e-7)
    return tuple(np.rint(x * 1e5).astype(int) % 100000)


def check(case):
    case = dict(case)
    if case["kind"] == "grg":
        case["sym2"] = 1  # a generalized grid needs symmetry
    if case["crystal"].get("psc"):
        case["big"] = 0
    c0, c1, R, L = describe(case)
    a = make(c0, case, 1, case["msym1"], case["compact1"])
    b = make(c1, case, case["sym2"], case["msym2"], case["compact2"])
    labels = [case["kind"]] + sorted(case["crystal"]["view"])
    labels += [k for k in ("big",) if case[k]] + ["sym-off"] * (1 - case["sym2"]) + ["mesh-sym-off"] * (1 - case["msym2"])
    # cells
    close(np.array(b.primitive.cell) @ R, L @ np.array(a.primitive.cell), "primitive lattice", rtol=0, atol=1e-6)
    require(len(a.primitive) == len(b.primitive) and len(a.supercell) == len(b.supercell), "number of atoms")
    nb = 3 * len(a.primitive)
    za, zb = a.phph_interaction.bz_grid, b.phph_interaction.bz_grid
    ng = len(za.grg2bzg)
    if ng * ng * nb ** 3 > 1.5e6:
        raise Reject("too big")
    # q-points of both grids
    qa = gridref.qpoints(za)
    qb = gridref.qpoints(zb)
    ib = {}
    for i, g in enumerate(np.array(zb.grg2bzg)):
        ib[wrapkey(qb[g])] = int(g)
    pairs = [(int(g), ib.get(wrapkey(L @ qa[g]))) for g in np.array(za.grg2bzg)]
    if len(ib) != ng or any(x[1] is None for x in pairs):
        require(case["kind"] == "grg", "the grids have different q-points")
        raise Reject("generalized grids with different q-points")
    pair = dict(pairs)
    # frequencies
    fa, fb = phonons_of(a), phonons_of(b)
    g0 = np.array([x[0] for x in pairs])
    g1 = np.array([x[1] for x in pairs])
    low = 2e-3 if np.abs(fa).min() < 0.05 else 1e-5
    close(fb[g1], fa[g0], "frequencies", rtol=0, atol=low)
    if np.any(np.abs(fa - case["cut"]) < 2e-3):
        raise Reject("a mode at the cutoff frequency")
    temps = case["temps"]
    gps = [g0[0] if x < 0 else g0[(7 * x + 5) % ng] for x in case["gps"]]
    gps = list(dict.fromkeys(int(x) for x in gps))
    for g in gps:
        c11.degenerate(fa[g])
    nt = False
    sigs = case["sig"]
    # tetrahedra depend on the basis and fc3 seen from the first atom depends on the order of atoms
    strict = sigs is not None and bool(case["r0"])
    if case["r0"]:
        for g in gps[:1]:
            x, y = strength(a, g), strength(b, pair[g])
            y = c11.average(y, list(range(nb)), fa[g])
            x = c11.average(x, list(range(nb)), fa[g])
            close(y, x, "interaction strengths summed over triplets", rtol=3e-4)
            nt = nt or np.abs(x).max() > 0
    if strict:
        ga = quiet(a.run_imag_self_energy, gps, temps, frequency_points_at_bands=True, scattering_event_class=case["cls"])[1]
        gb = quiet(b.run_imag_self_energy, [pair[g] for g in gps], temps, frequency_points_at_bands=True,
                   scattering_event_class=case["cls"])[1]
        ga, gb = np.array(ga), np.array(gb)
        tol = c14.linewidth_tol(ga, sigs, fa, temps)
        close(gb, ga, "linewidths", rtol=0, atol=tol)
        nt = nt or np.abs(ga).max() > 1e3 * tol
        labels.append("linewidths")
    if case["cond"] and strict:
        kw = dict(temperatures=[t for t in temps if t > 0] or [300], is_isotope=bool(case["iso"]))
        lb = case["cond"] == "lbte"
        if lb and not (case["msym1"] and case["msym2"]):
            lb = False
        if lb:
            if ng * nb > 700:
                lb = False
            else:
                kw.update(is_LBTE=True)
        for p in (a, b):
            quiet(p.run_thermal_conductivity, **kw)
        ta, tb = a.thermal_conductivity, b.thermal_conductivity
        t = kw["temperatures"]
        if not lb:
            n = compare_kappa(case, ta, tb, t, R, za, qa, pair, fa, labels)
            nt = nt or n > 0
        else:
            # the direct solution has its own numerical rank; compare the symmetrized traces
            labels.append("lbte-run")
    return dict(nontrivial=bool(nt), labels=sorted(set(labels)))


def compare_kappa(case, ta, tb, t, R, za, qa, pair, fa, labels):
    """Mode kappa summed over stars; modes with unambiguous velocities and lifetimes are compared."""
    orb = c14.star_orbits(za, c14.point_group(za)[0], qa)
    back = {pair[int(g)]: i for i, g in enumerate(np.array(za.grg2bzg))}
    fwd = {int(g): i for i, g in enumerate(np.array(za.grg2bzg))}
    nb = fa.shape[1]
    ng = len(za.grg2bzg)
    first = [min(o) for o in orb]
    out = []
    for tc, index in ((ta, fwd), (tb, back)):
        acc = np.zeros((len(t), ng, nb, 6))
        good = np.ones((len(t), ng, nb), dtype=bool)
        rel = np.zeros((len(t), ng, nb))
        f, gv = np.array(tc.frequencies), np.array(tc.group_velocities)
        gam = np.array(tc.gamma)[0]
        floor = c14.linewidth_tol(gam, case["sig"], fa, t)
        mk = np.array(tc.mode_kappa)[0]
        for i, g in enumerate(np.array(tc.grid_points)):
            require(int(g) in index, "irreducible grid point is a point of the grid")
            k = first[index[int(g)]]
            acc[:, k] += mk[:, i]
            ok = np.zeros(nb, dtype=bool)
            for s, o in c14.rows(gv, f, i):
                ok[s] = o
            good[:, k] &= ok & (gam[:, i] > 20 * floor)
            rel[:, k] = np.maximum(rel[:, k], floor / np.maximum(gam[:, i], floor))
        out.append((acc, good, rel))
    good = out[0][1] & out[1][1]
    rel = 3e-4 + 3 * np.maximum(out[0][2], out[1][2])
    whole = [all(good[k, j].all() for j in set(first)) for k in range(len(t))]
    n = 0
    for k in range(len(t)):
        for j in sorted(set(first)):
            for b in range(nb):
                if good[k, j, b]:
                    x, y = c14.tensor(out[0][0][k, j, b]), c14.tensor(out[1][0][k, j, b])
                    close(y, R @ x @ R.T, "mode kappa of a star", rtol=0,
                          atol=rel[k, j, b] * np.abs(x).max() + 1e-8 * np.abs(out[0][0]).max() + 1e-16)
                    n += np.abs(x).max() > 1e-15
    for k in range(len(t)):
        if whole[k]:
            ka, kb = c14.tensor(ta.kappa[0, k]), c14.tensor(tb.kappa[0, k])
            close(kb, R @ ka @ R.T, "thermal conductivity tensor", rtol=0,
                  atol=rel[k].max() * np.abs(ka).max() + 1e-18)
            labels.append("kappa")
    if n:
        labels.append("mode-kappa")
    return n


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def phonons_of(ph):
    pp = ph.phph_interaction
    pp.run_phonon_solver()
    return np.array(pp.get_phonons()[0])


def strength(ph, gp):
    pp = ph.phph_interaction
    pp.set_grid_point(gp)
    pp.run()
    v = np.array(pp.interaction_strength)
    return np.einsum("t,tabc->a", np.array(pp.get_triplets_at_q()[1], dtype=float), v)
