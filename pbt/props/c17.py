"""C17: collision matrix and direct solution of the Boltzmann equation."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, ref3
from pbt.core import Reject, close, require, same
from pbt.props import c11, c14

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=8, max_atoms=3, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 4)))
    d["temps"] = draw(st.lists(st.sampled_from([300, 1000, 100, 0, 5, 30, 301.5, 3000]), min_size=1, max_size=2))
    d["sig"] = draw(st.lists(st.sampled_from([0.3, 0.1, None, 1.0]), min_size=1, max_size=2))
    d["scut"] = draw(st.sampled_from([None, None, None, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["msym"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["sym"] = draw(ints(0, 5)) != 5 and 1 or 0
    d["star"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["nac"] = draw(ints(0, 5)) == 5 and 1 or 0
    d["iso"] = draw(st.sampled_from([0, 0, 1, 2]))
    d["mfp"] = draw(st.sampled_from([None, None, 1.0, 0.01]))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["red"] = draw(ints(0, 1))
    d["solver"] = draw(st.sampled_from([0, 4, 3, 5]))
    d["method"] = draw(ints(0, 1))
    d["gap"] = draw(ints(0, 3))
    d["full"] = draw(ints(0, 3)) == 3 and 1 or 0
    if draw(ints(0, 7)) == 7:
        d["const"] = draw(ints(1, 9)) * 1e-10
    return d


def strategy(tier):
    return strategy_()


def inv_sinh(f, t, cut):
    ok = f > cut
    x = np.minimum(np.where(ok, f, 1.0) * ref3.THZEV / (2 * ref3.KBEV * t), 600)
    return np.where(ok, 1 / np.sinh(x), 0)


def collisions(pp, case, gps, cut):
    """Rows of the off-diagonal part summed over the third phonon, at each sigma and temperature.

    out[sigma, T, row, band, GR point, band]; the condition is q0 + q1 + q2 = G.
    """
    bz = pp.bz_grid
    ng = len(bz.grg2bzg)
    b2g = np.array(bz.bzg2grg)
    pp.run_phonon_solver()
    f = np.array(pp.get_phonons()[0])
    nb = f.shape[1]
    temps = case["temps"]
    out = np.zeros((len(case["sig"]), len(temps), len(gps), nb, ng, nb))
    from phono3py.phonon3.triplets import get_triplets_integration_weights
    for i, gp in enumerate(gps):
        pp.set_grid_point(int(gp))
        trip = np.array(pp.get_triplets_at_q()[0])
        wt = np.array(pp.get_triplets_at_q()[1])
        pp.run()
        v2 = np.array(pp.interaction_strength)
        for j, s in enumerate(case["sig"]):
            if s is not None and case["scut"] is None:
                a = f[trip[:, 0]][:, :, None, None]
                b = f[trip[:, 1]][:, None, :, None]
                c = f[trip[:, 2]][:, None, None, :]
                g = c11.gauss(a - b - c, s) + c11.gauss(a + b - c, s) + c11.gauss(a - b + c, s)
            else:
                fp = np.array(f[gp], dtype="double")
                g = np.array(get_triplets_integration_weights(pp, fp, s, case["scut"], is_collision_matrix=True)[0][2])
            for k, t in enumerate(temps):
                if t == 0:
                    continue
                n = np.zeros(ng, dtype=int)
                for m, (_, q1, q2) in enumerate(trip):
                    x = v2[m] * g[m] * c11.UNIT
                    r1, r2 = int(b2g[q1]), int(b2g[q2])
                    out[j, k, i, :, r1, :] = np.einsum("abc,c->ab", x, inv_sinh(f[q2], t, cut))
                    n[r1] += 1
                    if wt[m] == 2:
                        out[j, k, i, :, r2, :] = np.einsum("abc,b->ac", x, inv_sinh(f[q1], t, cut))
                        n[r2] += 1
                    require(int(wt[m]) == 1 or int(wt[m]) == 2 and r1 != r2, "weight of a triplet without mesh symmetry")
                same(n, np.ones(ng, dtype=int), "triplets without mesh symmetry cover the grid")
    return out, f


def rotated(bz, rots, q):
    """GR index of each rotated GR point, shape (rotations, points)."""
    pts = q[np.array(bz.grg2bzg)]
    Q, D = np.array(bz.QDinv), np.array(bz.D_diag)
    table = {}
    for i, x in enumerate(pts):
        table[tuple(np.rint(np.linalg.solve(Q, x)).astype(int) % D)] = i
    out = np.zeros((len(rots), len(pts)), dtype=int)
    for i, r in enumerate(rots):
        for j, x in enumerate(pts):
            a = np.linalg.solve(Q, r @ x)
            if np.abs(a - np.rint(a)).max() > 1e-6:
                raise Reject("grid breaks the symmetry")
            out[i, j] = table[tuple(np.rint(a).astype(int) % D)]
    return out


def band_average(m, f, axis):
    """Average over degenerate bands; axis is that of (point, band) with points first."""
    m = np.array(m)
    for i in range(len(f)):
        for s in c11.degenerate(f[i]):
            if len(s) > 1:
                idx = [slice(None)] * m.ndim
                idx[axis] = i
                v = m[tuple(idx)]
                ax = axis  # the band axis takes the place of the point axis
                av = np.take(v, s, axis=ax).mean(axis=ax, keepdims=True)
                for b in s:
                    jdx = [slice(None)] * v.ndim
                    jdx[ax] = b
                    v[tuple(jdx)] = np.take(av, 0, axis=ax)
    return m


def stored(case, bz, j):
    """Collision matrix and linewidths in the file."""
    import h5py
    s = case["sig"][j]
    name = "collision-m%d%d%d" % tuple(bz.D_diag)
    if s is not None:
        name += "-s" + ("%f" % s).rstrip("0").rstrip(".")
        if case["scut"] is not None:
            name += "-sd" + ("%f" % case["scut"]).rstrip("0").rstrip(".")
    name += ".hdf5"
    require(os.path.exists(name), f"{name} was not written: {sorted(glob.glob('*.hdf5'))}", sig="collision file")
    with h5py.File(name) as h:
        return h["collision_matrix"][()], h["gamma"][()], h["temperature"][()]


def solve(case, om, x, cutoff, method):
    w, v = np.linalg.eigh(om)
    u = np.abs(w) if method == 0 else w
    e = np.where(u > cutoff, 1 / np.where(w == 0, 1, w), 0)
    return v @ (e[:, None] * (v.T @ x)), w


def gap_of(w, which, low):
    """A threshold above low inside one of the widest gaps of |eigenvalues|."""
    a = np.sort(np.abs(w))
    low = min(low, a[-1] * 0.99)
    a = np.concatenate([[low], a[a > low]])
    r = np.log(a[1:] / a[:-1])
    order = np.argsort(-r, kind="stable")
    k = order[min(which, len(order) - 1)]
    return float(np.sqrt(a[k] * a[k + 1]))


def noise_of(om, asym, s, F, cut):
    """Numerical error of the matrix."""
    top = np.abs(om).max()
    low = F[F > cut]
    return 3 * asym + 1e-5 * top * (1 + 1 / (s or 1)) * (1 + 1e-2 / (low.min() if low.size else 1)) + 1e-12 * top


def check(case):
    c, p2 = c14.build(case, msym=0)
    pp2 = p2.phph_interaction
    bz = pp2.bz_grid
    ng = len(bz.grg2bzg)
    nb = 3 * len(p2.primitive)
    if ng * ng * nb ** 3 > 8e5 or ng * nb > 500 or ng < 2:
        raise Reject("too big")
    if case["red"] and ng * nb > 200 or not case["star"] and ng * nb * 3 > 600:
        raise Reject("too big")
    for f in glob.glob("*.hdf5"):
        os.remove(f)
    cut = 1e-4 if case["cut"] is None else case["cut"]
    temps = case["temps"]
    gr = np.array(bz.grg2bzg)
    C, f = collisions(pp2, case, gr, cut)
    F = f[gr]
    if np.any(np.abs(F - cut) < 1e-5):
        raise Reject("a mode at the cutoff frequency")
    if (F[F > cut].min() if (F > cut).any() else 1) < 0.02:
        raise Reject("a mode with almost zero frequency above the cutoff")
    for i in range(ng):
        c11.degenerate(F[i])
    _, ph = c14.build(case)
    q = gridref.qpoints(bz)
    rots, crots = c14.point_group(ph.phph_interaction.bz_grid)
    same(ph.phph_interaction.bz_grid.addresses, bz.addresses, "grid with mesh symmetry")
    rot = rotated(bz, rots, q)
    # ---- RTA
    rta = c14.run(ph, case)
    rk, rm = np.array(rta.kappa), np.array(rta.mode_kappa)
    rg, gps = np.array(rta.gamma), np.array(rta.grid_points)
    gv = np.array(rta.group_velocities)
    gsum = c14.total_gamma(rta, case, gv, rg)  # sigma, T, points, bands
    if np.any((gsum != 0) & (np.abs(gsum) < 1e-100)):
        raise Reject("scattering rates that overflow")
    ir = np.array(bz.bzg2grg)[gps]
    if np.abs(np.array(rta.frequencies) - F[ir]).max() > 1e-6:
        raise Reject("frequencies of surface points differ")
    stab = [np.nonzero(rot[:, x] == x)[0] for x in ir] if case["star"] else None
    # ---- full-grid velocities and linewidths
    N = ng
    sym_ok = [s is not None and case["scut"] is None and bool(case["r0"]) and not case["nac"] for s in case["sig"]]
    V = np.zeros((ng, nb, 3))
    G = np.zeros(rg.shape[:2] + (ng, nb))
    for i, x in enumerate(ir):
        if case["star"]:
            v = np.mean([gv[i] @ crots[r].T for r in stab[i]], axis=0)
            for r in range(len(rots)):
                V[rot[r, x]] = v @ crots[r].T
                G[:, :, rot[r, x]] = gsum[:, :, i]
        else:
            V[x] = gv[i]
            G[:, :, x] = gsum[:, :, i]
    # the reducible route takes boundary scattering of velocities averaged over the little group
    ambiguous = bool(case["red"]) and case["mfp"] is not None and np.abs(
        np.linalg.norm(V[ir], axis=-1) - np.linalg.norm(gv, axis=-1)).max() > 1e-4 * max(np.abs(gv).max(), 1e-3)
    # without the average over degenerate bands single elements depend on the choice of eigenvectors
    if case["red"] and not case["star"] and case["msym"]:
        ambiguous = ambiguous or any(len(b) > 1 for i in range(ng) for b in c11.degenerate(F[i]))
    # ---- reference solution
    factor = 2 * c14.KAPPA / ph.primitive.volume
    refs = {}
    lims = []
    for j in range(len(case["sig"])):
        for k, t in enumerate(temps):
            if t == 0:
                continue
            om = C[j, k].copy()
            asym = np.abs(om.reshape(ng * nb, -1) - om.reshape(ng * nb, -1).T).max()

            def diagonal():
                for i in range(ng):
                    om[i, range(nb), i, range(nb)] += G[j, k, i]

            # the irreducible matrix is averaged over degenerate bands with its diagonal part, the reducible one without
            # it; not averaged when all grid points are run for the reducible one
            if not case["red"]:
                diagonal()
            if not (case["red"] and not case["star"]):
                om = band_average(band_average(om, F, 0), F, 2)
            if case["red"]:
                diagonal()
            cd = C[j, k] if case["red"] and not case["star"] else band_average(band_average(C[j, k], F, 0), F, 2)
            raw_diag = np.einsum("ibib->ib", cd) + G[j, k]
            om = om.reshape(ng * nb, ng * nb)
            om = (om + om.T) / 2
            x = V * (F * ref3.THZEV * inv_sinh(F, t, cut) / (4 * ref3.KBEV * t ** 2))[..., None]
            refs[j, k] = om, x.reshape(-1, 3), asym, raw_diag
            if sym_ok[j] or not lims:
                lims.append((np.linalg.eigvalsh(om), noise_of(om, asym, case["sig"][j], F, cut)))
    pinv = 1e-8
    if lims and np.abs(lims[-1][0]).max() > 0:
        pinv = gap_of(lims[-1][0], case["gap"], 5 * lims[-1][1])
    # ---- direct solution
    lb = c14.run(ph, case, is_LBTE=True, is_reducible_collision_matrix=bool(case["red"]), pinv_cutoff=pinv,
                 pinv_solver=case["solver"], pinv_method=case["method"], write_LBTE_solution=True,
                 is_full_pp=bool(case["full"]))
    same(lb.grid_points, gps, "grid points of direct solution")
    lk, lr = np.array(lb.kappa), np.array(lb.kappa_RTA)
    eig = np.array(lb.collision_eigenvalues)
    labels = [case["kind"], "reducible" if case["red"] else "irreducible", "star" if case["star"] else "all-points",
              f"solver{case['solver']}"]
    require(np.isfinite(lk).all(), f"thermal conductivity is not finite: {lk.tolist()}", sig="finite kappa")
    require(np.isfinite(lr).all(), f"RTA thermal conductivity is not finite: {lr.tolist()}", sig="finite RTA kappa")
    nt = False
    for j, s in enumerate(case["sig"]):
        cm, fg, ft = stored(case, bz, j)
        same(ft, np.array(temps, dtype=float), "temperatures of collision file")
        # linewidths: the same as RTA (a sigma cutoff leaves out other contributions on the RTA route)
        g1 = fg[:, ir] if case["red"] else fg
        if s is None or case["scut"] is None:
            close(g1, rg[j], f"linewidths of direct solution and RTA, sigma {s}", rtol=1e-6,
                  atol=1e-9 * np.abs(rg[j]).max() + 1e-22, sig="linewidths")
        # raw matrix
        if sym_ok[j] or not case["msym"]:
            for k, t in enumerate(temps):
                e = band_average(C[j, k][ir], F, 2)
                e = band_average(e, F[ir], 0)
                if case["red"]:
                    got = cm[k][ir]
                    got = band_average(band_average(got, F, 2), F[ir], 0)
                else:
                    R = crots if case["star"] else np.eye(3)[None]
                    idx = rot[:, ir] if case["star"] else ir[None]
                    e = np.array([e[:, :, idx[r]] for r in range(len(R))])  # r i b i' b'
                    e = np.einsum("rxy,ribjc->ibxjcy", R, e)
                    got = cm[k]
                    got = band_average(band_average(got, F[ir], 0), F[ir], 3)
                sc = np.abs(e).max()
                tol = 1e-5 * (1 + 1 / (s or 1)) * (1 + 4e-1 * np.abs(F).max() * ref3.THZEV / (ref3.KBEV * t)) if t else 1
                if case["msym"] and case["sym"]:
                    tol *= 3
                close(got, e, f"collision matrix, sigma {s}, T {t}", rtol=tol, atol=tol * sc + 1e-13 * np.abs(C[j, k]).max() * len(rots) + 1e-22, sig="collision matrix")
                nt = nt or sc > 0
                labels.append("matrix")
        for k, t in enumerate(temps):
            if t == 0:
                same(lk[j, k], np.zeros(6), "kappa at 0 K")
                continue
            # RTA of direct solution
            if not case["red"] and (s is None or case["scut"] is None):
                close(lr[j, k], rk[j, k], f"RTA kappa of direct solution, sigma {s}, T {t}", rtol=1e-5,
                      atol=1e-7 * np.abs(rk[j, k]).max() + 1e-20, sig="RTA kappa")
                labels.append("rta")
                nt = nt or np.abs(rk[j, k]).max() > 0
            # solution
            if ambiguous:
                labels.append("ambiguous-velocity")
                continue
            if (j, k) not in refs or not (sym_ok[j] or not case["star"] and not case["msym"] and case["scut"] is None):
                continue
            om, x, asym, rd = refs[j, k]
            top = np.abs(om).max()
            if top < 1e-9:
                continue
            noise = noise_of(om, asym, s, F, cut)
            wr = np.linalg.eigvalsh(om)
            size = ng * nb if case["red"] else len(gps) * nb * 3
            require(eig.shape == (len(case["sig"]), len(temps), size), f"shape of eigenvalues {eig.shape}")
            if case["red"]:
                # differences of degenerate bands are left out of the irreducible matrix only
                if not any(len(b) > 1 for i in range(ng) for b in c11.degenerate(F[i])):
                    close(np.sort(eig[j, k]), wr, f"eigenvalues, sigma {s}, T {t}", rtol=0, atol=noise * 3,
                          sig="eigenvalues")
                xx = np.where(rd.ravel()[:, None] != 0, x / np.where(rd == 0, 1, rd).ravel()[:, None], 0)
                kt = 2 * factor * ref3.KBEV * t ** 2 / N * np.einsum("mx,my->xy", x, xx)
                e = np.array([kt[p] for p in c14.ORDER])
                lim = np.abs(x / np.where(rd == 0, 1e300, np.where(rd == 0, 1, rd)).ravel()[:, None]).max()
                lim = factor * ref3.KBEV * t ** 2 / N * lim ** 2 * noise * len(x) * 10
                if lim < 1e-2 * np.abs(e).max():
                    close(lr[j, k], e, f"RTA kappa of reducible matrix, sigma {s}, T {t}", rtol=1e-4,
                          atol=lim + 1e-4 * np.abs(e).max() + 1e-16, sig="RTA kappa of reducible matrix")
                    labels.append("rta-reducible")
            else:
                grid = np.concatenate([wr, [0.0]])
                d = np.abs(eig[j, k][:, None] - grid[None]).min(axis=1).max()
                require(d <= noise * 3, f"eigenvalue of the irreducible matrix is not one of the whole matrix: {d} > {noise * 3}",
                        sig="eigenvalues")
            labels.append("eigenvalues")
            a = np.abs(wr)
            y, _ = solve(case, om, x, pinv, case["method"])
            full = np.einsum("mx,my->xy", x, y)
            kt = factor * ref3.KBEV * t ** 2 / N * (full + full.T)
            e = np.array([kt[p] for p in c14.ORDER])
            # error of the solution
            gapok = np.abs((a if case["method"] == 0 else wr) - pinv).min() > max(0.01 * pinv, 0.3 * noise)
            ny = np.linalg.norm(y)
            err = factor * ref3.KBEV * t ** 2 / N * (ny ** 2 * noise * 15 + 2 * ny * np.linalg.norm(x) * 1e-5)
            if err > 5e-2 * np.abs(e).max():
                labels.append("ill-conditioned")
                continue
            if not gapok:
                labels.append("no-gap")
                continue
            close(lk[j, k], e, f"kappa of direct solution, sigma {s}, T {t}, cutoff {pinv:.3g}", rtol=1e-5, atol=err + 1e-16,
                  sig="kappa of direct solution")
            labels.append("solution")
            nt = nt or np.abs(e).max() > 0
    return dict(nontrivial=bool(nt), labels=sorted(set(labels)))
