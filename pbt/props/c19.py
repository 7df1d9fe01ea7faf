"""C19: Wigner thermal conductivity."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons, ref3
from pbt.core import Reject, close, require, same
from pbt.props import c11, c14, c16

ints = st.integers
HBAR_EV = 6.582119569e-16


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=8, max_atoms=3, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 4)))
    d["temps"] = draw(st.lists(st.sampled_from([300, 0, 5, 30, 100, 301.5, 1000]), min_size=1, max_size=2))
    d["sig"] = draw(st.lists(st.sampled_from([0.2, None, 0.05, 1.0]), min_size=1, max_size=2))
    d["scut"] = draw(st.sampled_from([None, None, None, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["msym"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["sym"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["star"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["iso"] = draw(st.sampled_from([0, 0, 1, 2]))
    d["mfp"] = draw(st.sampled_from([None, None, 1.0, 0.01]))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["twin"] = draw(st.sampled_from(["star", "star", "lbte", "lbte", "exact"]))
    if draw(ints(0, 4)) == 4:
        d["dq"] = draw(st.sampled_from([1e-5, 1e-4, 1e-6]))
    if d["twin"] == "star" and draw(ints(0, 4)) != 4:
        d["sig"], d["scut"], d["r0"], d["nac"], d["mfp"] = [x or 0.2 for x in d["sig"]], None, 1, 0, None
    if draw(ints(0, 7)) == 7:
        d["const"] = draw(ints(1, 9)) * 1e-10
    return d


def strategy(tier):
    return strategy_()


def operator(dm, q, cell):
    """<s| d sqrt(D) / dq |s'> (THz Angstrom) and frequencies; from the derivative of D."""
    w, v = np.linalg.eigh(dm.dynmat(q))
    sq = np.sqrt(w.astype(complex))
    h = 1e-4
    den = sq[:, :, None] + sq[:, None, :]
    den = np.where(np.abs(den) < 1e-12, np.inf, den)
    out = np.zeros(w.shape + (w.shape[1], 3), dtype=complex)
    for a in range(3):
        e = np.zeros(3)
        e[a] = h
        dq = cell @ e
        d1 = (dm.dynmat(q + dq) - dm.dynmat(q - dq)) / (2 * h)
        d2 = (dm.dynmat(q + 2 * dq) - dm.dynmat(q - 2 * dq)) / (4 * h)
        d = (4 * d1 - d2) / 3
        out[..., a] = np.einsum("qis,qij,qjt->qst", v.conj(), d, v) / den * phonons.THZ
    return out, np.sign(w) * np.sqrt(np.abs(w)) * phonons.THZ


def block(V, a, b):
    """Gauge-invariant products of degenerate sets."""
    return np.einsum("stx,sty->xy", V[np.ix_(a, b)], V[np.ix_(a, b)].conj())


def population(case, f, cv, gs, sum2, cut, unit):
    """Mode conductivities of both parts from their formulas (linewidths are half widths)."""
    nb = f.shape[-1]
    P = np.zeros(gs.shape + (6,))
    C = np.zeros(gs.shape + (nb, 6))
    w = f * ref3.THZEV
    for i in range(len(f)):
        ok = f[i] > cut
        wi = np.where(ok, w[i], 1.0)
        pair = ok[:, None] & ok[None]
        diff = w[i][:, None] - w[i][None]
        deg = np.abs(f[i][:, None] - f[i][None]) < 1e-4
        for j in range(gs.shape[0]):
            for k in range(gs.shape[1]):
                G = 2 * gs[j, k, i] * ref3.THZEV  # full widths
                width = (G[:, None] + G[None]) / 2
                den = diff ** 2 + width ** 2
                x = cv[k, i] / wi
                pre = (wi[:, None] + wi[None]) * (x[:, None] + x[None]) / 4
                L = np.where(pair & (den > 0), width / np.where(den > 0, den, 1), 0) * pre * unit
                c = L[..., None] * sum2[i].real
                P[j, k, i] = np.where(deg[..., None], c, 0).sum(axis=1) * 0.5 + np.where(deg[..., None], c, 0).sum(axis=0) * 0.5
                C[j, k, i] = np.where(deg[..., None], 0, c)
    return P, C


def check(case):
    case = dict(case)
    if case["kind"] == "grg":
        case["sym"] = 1
    c, ph = c14.build(case)
    pp = ph.phph_interaction
    bz = pp.bz_grid
    ng = len(bz.grg2bzg)
    nb = 3 * len(ph.primitive)
    if ng * ng * nb ** 3 > (2e6 if case["msym"] and case["sym"] else 4e5) or ng > 60:
        raise Reject("too big")
    for x in glob.glob("*.hdf5"):
        os.remove(x)
    br = c14.run(ph, case, conductivity_type="wigner", write_kappa=True)
    cut = 1e-4 if case["cut"] is None else case["cut"]
    temps = np.array(case["temps"], dtype=float)
    gps = np.array(br.grid_points)
    q = gridref.qpoints(bz)
    f = np.array(br.frequencies)
    if np.any(np.abs(f - cut) < 1e-5):
        raise Reject("a mode at the cutoff frequency")
    for x in f:
        c11.degenerate(x)
    labels = [case["kind"], "star" if case["star"] else "all-points", case["twin"]]
    rots, crots = c14.point_group(bz)
    cv = np.array(br.mode_heat_capacities)
    for k, t in enumerate(temps):
        if t > 0 and np.any(np.abs(f * ref3.THZEV / (ref3.KBEV * t) - 100) < 0.01):
            continue
        close(cv[k], c14.heat_capacity(f, t, cut), f"heat capacity at {t}", rtol=0, atol=1e-5 * ref3.KBEV)
    # ---- velocity operator
    V = np.array(br.velocity_operator)
    require(V.shape == (len(gps), nb, nb, 3), f"shape of the velocity operator {V.shape}")
    close(V, V.transpose(0, 2, 1, 3).conj(), "velocity operator is Hermitian", rtol=0, atol=1e-9 * max(np.abs(V[np.isfinite(V)]).max(), 1))
    sets = [c11.degenerate(x) for x in f]
    gv = np.einsum("kbbx->kbx", V).real.copy()
    for i in range(len(f)):
        for a in sets[i]:
            if len(a) > 1:
                for x in range(3):
                    gv[i, a, x] = np.linalg.eigvalsh(V[i][np.ix_(a, a)][..., x])
    dm = None
    low = max(cut, 0.3)
    good = []
    if not case["nac"]:
        dm = phonons.Harmonic(ph.phonon_supercell, ph.phonon_primitive, c.potential(ph.phonon_supercell).fc2())
        R, fr = operator(dm, q[gps], np.array(ph.primitive.cell))
        for i in range(len(gps)):
            gamma_point = np.abs(q[gps[i]]).max() < 1e-9
            if np.abs(fr[i] - f[i]).max() > 1e-2 or gamma_point and (f[i][0] < -0.05 or nb > 3 and f[i][3] < 0.3):
                continue
            good.append(i)
            vm = max(np.abs(R[i][np.ix_(f[i] > low, f[i] > low)]).max() if (f[i] > low).any() else 0, 0.1)
            for a in sets[i]:
                for b in sets[i]:
                    if f[i][a].min() > low and f[i][b].min() > low:
                        # at Gamma pairs of acoustic modes are left out of the operator
                        close(block(V[i], a, b), block(R[i], a, b), f"velocity operator at {q[gps[i]].tolist()}, bands {a} {b}",
                              rtol=0, atol=(2e-5 + 1e-3 * (case.get("dq") or 0) / 1e-4) * vm ** 2 * len(a) * len(b) + 1e-5,
                              sig="velocity operator")
    # ---- outer products
    S = np.array(br.gv_by_gv_operator)
    vm = np.abs(V[np.isfinite(V)]).max()
    for i in range(len(gps)):
        if case["star"]:
            d = q[gps[i]] @ np.swapaxes(rots, 1, 2) - q[gps[i]]
            d -= np.rint(d)
            m = int(np.sum(np.abs(d).max(axis=1) < 1e-7))
            W = np.einsum("rxy,bcy->rbcx", crots, V[i])
        else:
            m, W = 1, V[i][None]
        e = np.einsum("rbcx,rbcy->bcxy", W, W.conj()) / m
        e = np.stack([e[..., a, b] for a, b in c14.ORDER], axis=-1)
        close(S[i], e, f"products of velocity operators at grid point {gps[i]}", rtol=1e-9, atol=1e-9 * vm ** 2)
    # ---- conductivities
    g = np.array(br.gamma)
    gs = c14.total_gamma(br, case, gv, g)
    above = np.broadcast_to(f > cut, gs.shape)
    require(np.all(gs[above] >= 0) or case["sig"].count(None), "negative linewidth")
    if np.any((gs != 0) & (np.abs(gs) < 1e-100)) or np.any(gs[above] < 0):
        raise Reject("scattering rates that overflow")
    unit = (1e2) ** 2 * phonons.EV * HBAR_EV / (ph.primitive.volume * 1e-30)
    P, C = population(case, f, cv, gs, S, cut, unit)
    mp, mc = np.real(br.mode_kappa_P_RTA), np.real(br.mode_kappa_C)
    for n, x in (("mode_kappa_P_RTA", mp), ("mode_kappa_C", mc), ("kappa_P_RTA", br.kappa_P_RTA), ("kappa_C", br.kappa_C),
                 ("kappa_TOT_RTA", br.kappa_TOT_RTA)):
        require(np.all(np.isfinite(x)), f"{n} is not finite", sig=f"finite {n}")
    # with linewidths of the size of rounding errors of frequencies, pairs of degenerate modes carry noise
    tiny = np.any((gs > 0) & (gs < 1e-12) & above, axis=-1)
    P = np.where(tiny[..., None, None], mp, P)
    C = np.where(tiny[..., None, None, None], mc, C)
    for j, s in enumerate(case["sig"]):
        for k, t in enumerate(temps):
            w = f"sigma {s}, T {t}"
            close(mp[j, k], P[j, k], f"population part of modes, {w}", rtol=3e-6, atol=1e-18, sig="mode population")
            close(mc[j, k], C[j, k], f"coherence part of modes, {w}", rtol=3e-6, atol=1e-18, sig="mode coherence")
            kp, kc = P[j, k].sum(axis=(0, 1)) / ng, C[j, k].sum(axis=(0, 1, 2)) / ng
            close(np.real(br.kappa_P_RTA)[j, k], kp, f"population conductivity, {w}", rtol=3e-6, atol=1e-18, sig="kappa_P")
            close(np.real(br.kappa_C)[j, k], kc, f"coherence conductivity, {w}", rtol=3e-6, atol=1e-18, sig="kappa_C")
            close(np.real(br.kappa_TOT_RTA)[j, k], kp + kc, f"total conductivity, {w}", rtol=3e-6, atol=1e-18, sig="kappa_TOT")
            if case["star"]:
                for x in (br.kappa_P_RTA, br.kappa_C):
                    kt = c14.tensor(np.real(x)[j, k])
                    for r in crots:
                        close(r @ kt @ r.T, kt, "conductivity is not invariant under the point group", rtol=1e-6, atol=1e-18)
    nt = bool(P.max() > 0) and len(gps) > 1
    if C.max() > 0:
        labels.append("coherence")
    wigner_files(case, br, bz)
    # ---- the ordinary RTA conductivity
    std = c14.run(ph, case)
    close(np.array(std.gamma), g, "linewidths of the ordinary RTA", rtol=1e-9, atol=1e-25)
    ms = np.array(std.mode_kappa)
    sv = np.array(std.group_velocities)
    for i in good:
        for a in sets[i]:
            if len(a) > 1 or f[i][a[0]] < low:
                continue
            b = a[0]
            gap = np.abs(np.delete(f[i], b) - f[i, b]).min() if nb > 1 else 1
            if gap < 1e-2:
                continue
            v = max(np.linalg.norm(gv[i, b]), np.linalg.norm(sv[i, b]))
            tol = 2e-4 * max(v, 1) + 1e-3 * (case.get("dq") or 0) / 1e-4
            # the ordinary velocities are averaged over the little group
            d = q[gps[i]] @ np.swapaxes(rots, 1, 2) - q[gps[i]]
            lg = np.abs(d - np.rint(d)).max(axis=(1)) < 1e-7
            av = np.mean(gv[i, b] @ np.swapaxes(crots[lg], 1, 2), axis=0)
            if np.abs(av - gv[i, b]).max() > 1e-4 * max(v, 1):
                continue
            close(gv[i, b], sv[i, b], f"velocities of both conductivities at {q[gps[i]].tolist()}, band {b}", rtol=0, atol=tol,
                  sig="velocities")
            if case["mfp"] is None:
                for j in range(len(case["sig"])):
                    for k in range(len(temps)):
                        e = ms[j, k, i, b]
                        if gs[j, k, i, b] < 1e-30:
                            continue
                        noise = 2 * c14.KAPPA / ph.primitive.volume * cv[k, i, b] / (2 * gs[j, k, i, b]) * len(crots)
                        close(mp[j, k, i, b], e, "population part and RTA conductivity of a mode", rtol=1e-5,
                              atol=1e-18 + noise * (2 * v * tol + tol ** 2), sig="population and RTA")
            labels.append("rta")
    t = case["twin"]
    if t == "star" and not tiny.any() and len(f) * nb < 800:
        star_twin(case, ph, br, f, mp, mc, bz, rots, cut, sets, labels)
    if t == "lbte" and case["star"] and ng * nb * 3 < 500 and case["scut"] is None:
        lb = c14.run(ph, case, conductivity_type="wigner", is_LBTE=True)
        close(np.array(lb.gamma), g, "linewidths of direct solution", rtol=1e-6, atol=1e-9 * np.abs(g).max() + 1e-22)
        T = [k for k, x in enumerate(temps) if x > 0]
        if T and np.all(np.isfinite(np.array(lb.mode_kappa_C))):
            x = np.real(lb.mode_kappa_C)[:, T]
            e = mc[:, T]
            close(x, e, "coherence part of direct solution", rtol=1e-5, atol=1e-9 * np.abs(e).max() + 1e-18,
                  sig="coherence of direct solution")
            close(np.real(lb.kappa_C)[:, T], np.real(br.kappa_C)[:, T], "coherence conductivity of direct solution", rtol=1e-5,
                  atol=1e-18)
            labels.append("lbte")
        if all(len(a) == 1 for s in sets for a in s) and case["mfp"] is None and T:
            e = np.real(br.kappa_P_RTA)[:, T]
            close(np.real(lb.kappa_P_RTA)[:, T], e, "population conductivity of direct solution", rtol=1e-5,
                  atol=1e-6 * np.abs(e).max() + 1e-18, sig="population of direct solution")
    return dict(nontrivial=nt, labels=sorted(set(labels)))


def star_twin(case, ph, br, f, mp, mc, bz, rots, cut, sets, labels):
    """Sums over degenerate sets and stars with and without symmetry reduction."""
    if case["scut"] is not None or not case["r0"] or case["nac"] or None in case["sig"] or case["mfp"] is not None:
        return
    if case["star"]:
        a, b = br, c14.run(ph, case, is_kappa_star=False, conductivity_type="wigner")
    else:
        a, b = c14.run(ph, case, is_kappa_star=True, conductivity_type="wigner"), br
    fa, fb = np.array(a.frequencies), np.array(b.frequencies)
    key = {tuple(np.rint((x - np.floor(x + 1e-9)) * 1e6).astype(int) % 1000000): i for i, x in enumerate(np.array(b.qpoints))}
    ga = np.array(a.gamma)
    single = len(a.grid_points) == len(b.grid_points)
    ka, kb = [(np.real(x.mode_kappa_P_RTA), np.real(x.mode_kappa_C)) for x in (a, b)]
    top = max(np.abs(x).max() for x in ka + kb)
    for i, x in enumerate(np.array(a.qpoints)):
        if single:
            arms = [i]
        else:
            arms = sorted({key[tuple(np.rint((y - np.floor(y + 1e-9)) * 1e6).astype(int) % 1000000)] for y in (r @ x for r in rots)})
        if np.abs(fb[arms] - fa[i]).max() > 1e-3:
            return
        if (np.abs(fa[i]) < 0.3).any() or np.abs(x).max() < 1e-9:
            continue
        S = c11.degenerate(fa[i])
        for j, sg in enumerate(case["sig"]):
            tol = c14.linewidth_tol(ga[j], sg, fa, case["temps"])
            for s in S:
                if fa[i][s].min() < cut:
                    continue
                for k in range(len(case["temps"])):
                    gk = ga[j, k, i][s].min()
                    if gk <= 0 or tol / gk > 1e-2:
                        continue
                    close(kb[0][j, k][arms][:, s].sum((0, 1)), ka[0][j, k, i][s].sum(0), f"population part of the star of {x.tolist()}",
                          rtol=1e-4 + 5 * tol / gk, atol=1e-7 * top + 1e-20, sig="population of a star")
                    labels.append("star-population")
                    for u in S:
                        gu = ga[j, k, i][u].min()
                        if u[0] == s[0] or fa[i][u].min() < cut or gu <= 0 or tol / gu > 1e-2:
                            continue
                        A = ka[1][j, k, i][np.ix_(s, u)].sum((0, 1))
                        B = sum(kb[1][j, k][r][np.ix_(s, u)].sum((0, 1)) for r in arms)
                        close(B, A, f"coherence part of the star of {x.tolist()}", rtol=1e-4 + 5 * tol / min(gk, gu) + 1e-5 / abs(fa[i][s[0]] - fa[i][u[0]]),
                              atol=1e-7 * top + 1e-20, sig="coherence of a star")
                        labels.append("star-coherence")


def wigner_files(case, br, bz):
    for j, s in enumerate(case["sig"]):
        if case["sig"].index(s) != j or case["sig"].count(s) > 1:
            continue
        name = "kappa" + c16.suffix(bz, s, case["scut"])
        d = c16.read(name)
        for n in ("kappa_TOT_RTA", "kappa_P_RTA", "kappa_C", "mode_kappa_P_RTA", "mode_kappa_C", "gamma"):
            e = getattr(br, n)[j]
            require(n in d, f"{n} is not in {name}: {sorted(d)}", sig="wigner file")
            same(np.real(d[n]), np.real(e), f"{n} of {name}", sig="wigner file")
        for n, e in (("frequency", br.frequencies), ("qpoint", br.qpoints), ("weight", br.grid_weights), ("heat_capacity", br.mode_heat_capacities)):
            same(d[n], e, f"{n} of {name}", sig="wigner file")
