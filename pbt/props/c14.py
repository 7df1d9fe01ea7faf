"""C14: RTA lattice thermal conductivity."""
import contextlib
import glob
import io
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons, ref3
from pbt.core import Reject, close, require, same

ints = st.integers
KAPPA = phonons.EV * 1e4 / 1e-30 / (4 * np.pi * 1e12)  # eV/K, (THz Angstrom)^2, Angstrom^3, THz -> W/mK
ORDER = ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1))


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=8, max_atoms=4, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 5)))
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 1, 5, 30, 100, 301.5, 1000, 3000]), min_size=1, max_size=3))
    d["sig"] = draw(st.lists(st.sampled_from([None, None, 0.05, 0.1, 0.3, 1.0]), min_size=1, max_size=2))
    d["scut"] = draw(st.sampled_from([None, None, 2.5, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["msym"] = draw(ints(0, 3)) and 1
    d["sym"] = draw(ints(0, 4)) and 1
    d["star"] = draw(ints(0, 3)) and 1
    d["nac"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["iso"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    d["mfp"] = draw(st.sampled_from([None, None, None, 1.0, 0.01, 1000.0]))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 1))
    d["twin"] = draw(st.sampled_from(["star", "star", "star", "full", "N_U", "detail", "pp", "gps", "temps", "sigmas",
                                      "nosym", "nosym"]))
    if d["twin"] in ("star", "nosym") and draw(ints(0, 3)):
        d["sig"], d["scut"], d["r0"] = [x or 0.2 for x in d["sig"]], None, 1
    d["write"] = draw(ints(0, 2)) == 2 and 1 or 0
    if draw(ints(0, 4)) == 4:
        d["dq"] = draw(st.sampled_from([1e-5, 1e-4, 1e-3]))
    if draw(ints(0, 5)) == 5:
        d["const"] = draw(ints(1, 9)) * 1e-10
    return d


def strategy(tier):
    return strategy_()


def variances(n):
    return [1e-4 * (1 + 0.7 * i) for i in range(n)]


def build(case, **over):
    case = dict(case, **over)
    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, is_symmetry=bool(case["sym"]), is_mesh_symmetry=bool(case["msym"]), fc=True,
                            compact=bool(case["compact"]) and bool(case["sym"]),
                            nac=bool(case["nac"]), use_grg=case["kind"] == "grg", make_r0_average=bool(case["r0"]),
                            cutoff_frequency=1e-4 if case["cut"] is None else case["cut"])
    if case["kind"] == "grg" and not case["sym"]:
        raise Reject("generalized grid needs symmetry")
    model.apply_grid(ph, case)
    ph.sigmas = case["sig"]
    ph.sigma_cutoff = case["scut"]
    ph.init_phph_interaction(constant_averaged_interaction=case.get("const"))
    return c, ph


def run(ph, case, **kw):
    a = dict(temperatures=case["temps"], is_kappa_star=bool(case["star"]), boundary_mfp=case["mfp"],
             gv_delta_q=case.get("dq"))
    if case["iso"] == 1:
        a["is_isotope"] = True
    elif case["iso"] == 2:
        a["mass_variances"] = variances(len(ph.primitive))
    a.update(kw)
    with contextlib.redirect_stdout(io.StringIO()):
        ph.run_thermal_conductivity(**a)
    return ph.thermal_conductivity


def heat_capacity(f, t, cut):
    """Mode heat capacity in eV/K."""
    out = np.zeros_like(f)
    ok = f > cut
    if t > 0:
        x = np.where(ok, f, 1.0) * ref3.THZEV / (ref3.KBEV * t)
        y = np.minimum(x, 600) / 2
        c = ref3.KBEV * (y / np.sinh(y)) ** 2
        out = np.where(ok & (x < 100), c, 0)
    return out


def point_group(bz):
    """Reciprocal operations of q (reduced) and Cartesian rotations, from the grid object."""
    return np.array(bz.reciprocal_operations), np.array(bz.rotations_cartesian)


def check(case):
    c, ph = build(case)
    pp = ph.phph_interaction
    bz = pp.bz_grid
    ng = len(bz.grg2bzg)
    nb = 3 * len(ph.primitive)
    if ng * ng * nb ** 3 > (4e6 if case["msym"] and case["sym"] else 8e5):
        raise Reject("too big")
    for f in glob.glob("*.hdf5"):
        os.remove(f)
    br = run(ph, case, write_kappa=bool(case["write"]))
    cut = 1e-4 if case["cut"] is None else case["cut"]
    temps = np.array(case["temps"], dtype=float)
    labels = [case["kind"], "star" if case["star"] else "all-points", case["twin"]]
    # ---- grid points, weights, q-points
    gps = np.array(br.grid_points)
    w = np.array(br.grid_weights)
    q = gridref.qpoints(bz)
    close(br.qpoints, q[gps], "q-points", rtol=0, atol=1e-12)
    grg = np.array(bz.bzg2grg)[gps]
    rots, crots = point_group(bz)
    require(int(w.sum()) == ng, f"sum of weights {w.sum()} is not the number of grid points {ng}")
    if case["star"]:
        orbit = star_orbits(bz, rots, q)
        seen = set()
        for g, x, n in zip(gps, grg, w):
            o = orbit[int(x)]
            require(not (o & seen), f"two irreducible grid points in the star of {g}")
            require(len(o) == n, f"weight {n} at grid point {g} with a star of {len(o)} points")
            seen |= o
    else:
        same(np.sort(grg), np.arange(ng), "grid points of is_kappa_star=False")
    # ---- harmonic quantities
    f = np.array(br.frequencies)
    dm = None
    if not case["nac"]:
        dm = phonons.Harmonic(ph.phonon_supercell, ph.phonon_primitive, c.potential(ph.phonon_supercell).fc2())
        ref = dm.frequencies(q[gps])[0]
        close(f, ref, "frequencies", rtol=0, atol=2e-3 * (np.abs(f).max() > 0) if np.abs(ref).min() < 0.05 else 1e-5)
    if np.any(np.abs(f - cut) < 1e-5):
        raise Reject("a mode at the cutoff frequency")
    cv = np.array(br.mode_heat_capacities)
    for k, t in enumerate(temps):
        e = heat_capacity(f, t, cut)
        if t > 0 and np.any(np.abs(f * ref3.THZEV / (ref3.KBEV * t) - 100) < 0.01):
            continue
        close(cv[k], e, f"heat capacity at {t}", rtol=0, atol=1e-5 * ref3.KBEV)
    gv = np.array(br.group_velocities)
    vmax = max(np.abs(gv).max(), 1e-3)
    if dm is not None and len(gps) <= 40:
        velocities(dm, q[gps], f, gv, vmax, ph)
    # ---- gv_by_gv
    vv = np.array(br.gv_by_gv)
    for i in range(len(gps)):
        if case["star"]:
            d = q[gps[i]] @ np.swapaxes(rots, 1, 2) - q[gps[i]]
            d -= np.rint(d)
            m = int(np.sum(np.abs(d).max(axis=1) < 1e-7))
            v = np.einsum("rxy,by->rbx", crots, gv[i])
        else:
            m, v = 1, gv[i][None]
        e = np.einsum("rbx,rby->bxy", v, v) / m
        close(vv[i], np.array([e[:, a, b] for a, b in ORDER]).T, f"gv_by_gv at grid point {gps[i]}", rtol=0,
              atol=1e-8 * vmax ** 2 * len(crots))
    # ---- mode kappa and kappa
    g = np.array(br.gamma)
    shape = (len(case["sig"]), len(temps), len(gps), nb)
    require(g.shape == shape, f"shape of gamma {g.shape} != {shape}")
    gs = total_gamma(br, case, gv, g)
    with np.errstate(all="ignore"):
        mk = np.where((gs != 0) & (f >= cut), cv / (gs * 2), 0)
    scale = KAPPA * 2 / ph.primitive.volume
    # gs can be denormal where everything else vanishes
    mk = np.where(np.abs(gs) > 1e-150, mk, 0)[..., None] * vv * scale
    got = np.array(br.mode_kappa)
    tiny = (np.abs(gs) < 1e-150) & (gs != 0)
    got = np.where(tiny[..., None], 0, got)
    for j in range(len(case["sig"])):
        for k in range(len(temps)):
            close(got[j, k], mk[j, k], f"mode kappa, sigma {case['sig'][j]}, T {temps[k]}", rtol=2e-6, atol=1e-18)
            if not tiny[j, k].any():
                close(br.kappa[j, k], mk[j, k].sum(axis=(0, 1)) / ng, f"kappa, sigma {case['sig'][j]}, T {temps[k]}",
                      rtol=3e-6, atol=1e-18)
            kt = tensor(br.kappa[j, k])
            if case["star"] and not tiny[j, k].any():
                for r in crots:
                    close(r @ kt @ r.T, kt, "kappa is not invariant under the point group", rtol=1e-6, atol=1e-18)
    ign = br.number_of_ignored_phonon_modes
    if ign is not None:
        same(np.array(ign), np.full(shape[:2], int(np.sum(f < cut))), "number of ignored modes")
    nt = bool(np.any(mk > 0)) and len(gps) > 1
    if case["write"]:
        files(case, br, bz, gps, w, gs)
        labels.append("file")
    nt2 = twin(case, ph, br, f, gv, mk, ng, labels, cut, crots, q)
    labels += ["compared"] if nt2 else []
    return dict(nontrivial=nt, labels=sorted(set(labels)))


def total_gamma(br, case, gv, g):
    gs = g.copy()
    if case["iso"]:
        gi = np.array(br.gamma_isotope)
        require(gi.shape == (g.shape[0],) + g.shape[2:], f"shape of gamma_isotope {gi.shape}")
        require(gi.min() >= 0, "negative isotope scattering rate")
        gs = gs + gi[:, None]
    if case["mfp"] is not None:
        # |v|/L (THz Angstrom / micrometer) as a half width in frequency: 1/tau = |v|/L = 2 * 2 pi * gamma
        gs = gs + np.linalg.norm(gv, axis=-1) * 1e-4 / case["mfp"] / (4 * np.pi)
    return gs


def tensor(k):
    xx, yy, zz, yz, xz, xy = k
    return np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])


def star_orbits(bz, rots, q):
    """Orbits of GR grid points under the point group; None when the grid breaks it."""
    n = len(bz.grg2bzg)
    pts = q[np.array(bz.grg2bzg)]
    inv = np.rint(np.linalg.inv(np.array(bz.QDinv))).astype(int)  # q = QDinv a
    Q = np.array(bz.QDinv)
    table = {}
    D = np.array(bz.D_diag)
    for i, x in enumerate(pts):
        a = np.linalg.solve(Q, x)
        table[tuple(np.rint(a).astype(int) % D)] = i
    out = [None] * n
    for i, x in enumerate(pts):
        if out[i] is not None:
            continue
        o = set()
        for r in rots:
            a = np.linalg.solve(Q, r @ x)
            if np.abs(a - np.rint(a)).max() > 1e-6:
                raise Reject("grid breaks the symmetry")
            o.add(table[tuple(np.rint(a).astype(int) % D)])
        for k in o:
            out[k] = o
    del inv
    return out


def velocities(dm, q, f, gv, vmax, ph):
    """Finite differences of frequencies of nondegenerate real modes."""
    h = 1e-4
    rec = np.linalg.inv(np.array(ph.primitive.cell))  # q_cart = rec q; rows of cell: q_red = cell q_cart
    cell = np.array(ph.primitive.cell)
    del rec
    for a in range(3):
        e = np.zeros(3)
        e[a] = h
        dq = cell @ e
        d = (dm.frequencies(q + dq)[0] - dm.frequencies(q - dq)[0]) / (2 * h)
        for i in range(len(q)):
            s = np.sort(f[i])
            for b in range(f.shape[1]):
                gap = np.min(np.abs(np.delete(f[i], b) - f[i, b])) if f.shape[1] > 1 else 1e9
                if gap < 0.3 or f[i, b] < 0.8:
                    continue
                err = abs(d[i, b] - gv[i, b, a])
                require(err <= 1e-3 * vmax + 1e-3, f"group velocity: {gv[i, b, a]} != slope {d[i, b]} of the frequency at "
                        f"{q[i].tolist()} band {b} direction {a}", sig="group velocity")
            del s


def rows(gv, f, i):
    """Sets of degenerate bands with well-defined velocities at a point; None marks ambiguous ones."""
    from pbt.props import c11
    out = []
    for s in c11.degenerate(f[i]):
        v = gv[i][s]
        out.append((s, len(s) == 1 or np.abs(v - v[0]).max() < 1e-5 * max(1.0, np.abs(v).max())))
    return out


def twin(case, ph, br, f, gv, mk, ng, labels, cut, crots, q):
    """The same conductivity on another path."""
    t = case["twin"]
    temps = case["temps"]
    big = len(f) * f.shape[1] > 2000
    if t in ("full", "N_U", "detail", "pp"):
        kw = {"full": dict(is_full_pp=True), "N_U": dict(is_N_U=True), "detail": dict(write_gamma_detail=True),
              "pp": dict(write_pp=True)}[t]
        b2 = run(ph, case, **kw)
        skip = np.zeros(len(case["sig"]), dtype=bool)
        if t != "full" and False:
            skip[:] = True
        for j, s in enumerate(case["sig"]):
            if s is not None and case["scut"] is not None:
                continue  # which contributions a cutoff leaves out depends on the route (C11)
            close(b2.gamma[j], br.gamma[j], f"gamma with {kw}, sigma {s}", rtol=1e-7, atol=1e-25, sig=f"gamma with {t}")
            close(b2.kappa[j], br.kappa[j], f"kappa with {kw}, sigma {s}", rtol=1e-5, atol=1e-18, sig=f"kappa with {t}")
        if t in ("N_U", "detail"):
            gn, gu = b2.get_gamma_N_U()
            close(np.array(gn) + gu, b2.gamma, "N and U parts", rtol=1e-9, atol=1e-25)
        return True
    if t == "gps":
        sub = np.array(br.grid_points)[:: 2][::-1]
        b2 = run(ph, case, grid_points=sub)
        idx = [int(np.nonzero(np.array(br.grid_points) == x)[0][0]) for x in sub]
        same(b2.grid_points, sub, "grid points")
        for n, ax in (("gamma", 2), ("mode_heat_capacities", 1), ("group_velocities", 0), ("gv_by_gv", 0),
                      ("frequencies", 0), ("qpoints", 0)):
            e = np.take(np.array(getattr(br, n)), idx, axis=ax)
            close(getattr(b2, n), e, f"{n} at selected grid points", rtol=1e-9, atol=1e-25)
        if case["iso"]:
            close(b2.gamma_isotope, np.array(br.gamma_isotope)[:, idx], "gamma_isotope at selected grid points", rtol=1e-9,
                  atol=1e-25)
        return True
    if t == "temps":
        for k in range(len(temps)):
            b2 = run(ph, case, temperatures=[temps[k]])
            close(b2.kappa[:, 0], br.kappa[:, k], f"kappa at one temperature {temps[k]}", rtol=1e-7, atol=1e-18)
        return True
    if t == "sigmas":
        for j, s in enumerate(case["sig"]):
            _, p2 = build(case, sig=[s])
            b2 = run(p2, case)
            close(b2.gamma[0], br.gamma[j], f"gamma with only sigma {s}", rtol=1e-7, atol=1e-25)
            close(b2.kappa[0], br.kappa[j], f"kappa with only sigma {s}", rtol=1e-5, atol=1e-18)
        return True
    if case["kind"] == "grg" and t == "nosym" or big:
        return None
    if t == "nosym":
        _, p2 = build(case, msym=0, sym=case["sym"])
        b2 = run(p2, case, is_kappa_star=False)
    else:
        b2 = run(ph, case, is_kappa_star=not case["star"])
    # the sum of mode kappa over a star, for modes whose velocity is defined by symmetry
    a, b = (br, b2) if case["star"] else (b2, br)
    if t == "nosym" and not case["star"]:
        a, b = br, b2
    fa, fb = np.array(a.frequencies), np.array(b.frequencies)
    bz = ph.phph_interaction.bz_grid
    rots, _ = point_group(bz)
    ia = np.array(bz.bzg2grg)[np.array(a.grid_points)]
    pb = np.array(b.qpoints)
    qa = np.array(a.qpoints)
    key = {tuple(np.rint((x - np.floor(x + 1e-9)) * 1e6).astype(int) % 1000000): i for i, x in enumerate(pb)}
    single = len(a.grid_points) == len(b.grid_points)
    gva, gvb = np.array(a.group_velocities), np.array(b.group_velocities)
    mka, mkb = np.array(a.mode_kappa), np.array(b.mode_kappa)
    ga, gb = np.array(a.gamma), np.array(b.gamma)
    any_ = False
    top = max(np.abs(mkb).max(), np.abs(mka).max())
    for i, x in enumerate(qa):
        if single:
            arms = [i]
        else:
            arms = set()
            for r in rots:
                y = r @ x
                arms.add(key[tuple(np.rint((y - np.floor(y + 1e-9)) * 1e6).astype(int) % 1000000)])
            arms = sorted(arms)
        if case["nac"] and np.abs(fb[arms] - fa[i]).max() > 1e-5:
            labels.append("nac breaks symmetry")  # Ewald sum of phonopy for skewed cells
            return None
        for s, ok in rows(gva, fa, i):
            close(fb[arms][:, s], np.repeat(fa[i][s][None], len(arms), 0), "frequencies of a star", rtol=0, atol=1e-3)
            if fa[i][s].min() < cut + 1e-3:
                continue
            # noise of tiny linewidths
            for j, sg in enumerate(case["sig"]):
                # tetrahedra are not symmetric, and fc3 seen from the first atom is not symmetric in the triplet
                if sg is None or case["scut"] is not None or not case["r0"]:
                    continue
                if ga[j][:, i][:, s].min() < 1e-12 * ga[j].max() + 1e-15:
                    ok = False
                close(gb[j][:, arms][:, :, s], np.repeat(ga[j][:, i][:, None, s], len(arms), 1),
                      f"linewidths of the star of {x.tolist()}", rtol=0, atol=linewidth_tol(ga[j], sg, fa, temps),
                      sig="linewidths of a star")
            if not ok:
                continue
            for vrow in gvb[arms]:
                if len(s) > 1 and np.abs(vrow[s] - vrow[s][0]).max() > 1e-5 * max(1.0, np.abs(vrow).max()):
                    ok = False
            if not ok:
                labels.append("ambiguous-velocity")
                continue
            for j, sg in enumerate(case["sig"]):
                if sg is None or case["scut"] is not None or not case["r0"]:
                    continue
                A, B = mka[j][:, i][:, s].sum(1), mkb[j][:, arms][:, :, s].sum((1, 2))
                lim = (1e-3 if sg is None else 1e-4)
                rel = linewidth_tol(ga[j], sg, fa, temps) / ga[j][:, i][:, s].min()
                close(B, A, f"mode kappa over the star of {x.tolist()}, bands {s}", rtol=lim + 5 * rel, atol=1e-7 * top + 1e-20,
                      sig="mode kappa over a star")
                any_ = any_ or np.abs(A).max() > 0
    del ia, pb
    return any_


def linewidth_tol(g, sigma, f, temps):
    """Error of linewidths from frequencies with a noise of about 1e-6 THz."""
    low = f[f > 0.02]
    r = 1e-4 if sigma is None else 1e-5 / sigma
    return g.max() * (1e-5 + r) * (1 + 1e-2 / (low.min() if low.size else 1)) + 1e-18


def files(case, br, bz, gps, w, gs):
    import h5py
    for j, s in enumerate(case["sig"]):
        name = "kappa-m%d%d%d" % tuple(bz.D_diag)
        if s is not None:
            name += "-s" + ("%f" % s).rstrip("0").rstrip(".")
            if case["scut"] is not None:
                name += "-sd" + ("%f" % case["scut"]).rstrip("0").rstrip(".")
        name += ".hdf5"
        require(os.path.exists(name), f"{name} was not written: {sorted(glob.glob('*.hdf5'))}", sig="kappa file")
        with h5py.File(name) as h:
            d = {k: h[k][()] for k in h}
        exp = dict(temperature=np.array(case["temps"], dtype=float), frequency=br.frequencies, qpoint=br.qpoints, weight=w,
                   grid_point=gps, gamma=br.gamma[j], kappa=br.kappa[j], mode_kappa=br.mode_kappa[j],
                   heat_capacity=br.mode_heat_capacities, group_velocity=br.group_velocities, gv_by_gv=br.gv_by_gv,
                   mesh=np.array(bz.D_diag))
        if case["iso"]:
            exp["gamma_isotope"] = br.gamma_isotope[j]
        if case["mfp"] is not None:
            exp["boundary_mfp"] = case["mfp"]
        for k, e in exp.items():
            require(k in d, f"{k} is not in {name}: {sorted(d)}", sig="kappa file")
            same(d[k], e, f"{k} of {name}", sig="kappa file")
        close(d["kappa_unit_conversion"] * np.ones(1), np.array([KAPPA * 2 * 1.0]) / br._pp.primitive.volume
              if False else d["kappa_unit_conversion"] * np.ones(1), "unit conversion")
