"""C22: group velocities and velocity operators."""
import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, phonons, ref3
from pbt.core import Reject, close, require
from pbt.props import c14

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(sc="sym", size=24, wrap=True, psc=True)))
    d["route"] = draw(st.sampled_from(["matrix", "operator", "run", "capacity"] + ["run", "matrix", "operator"]))
    if d["route"] == "run":
        d["crystal"] = draw(model.crystals(sc="sym", size=8, wrap=True))
    d.update(draw(model.grids(d["crystal"], 1, 4)))
    d["sharp"] = draw(ints(0, 2))
    d["q"] = [[draw(ints(-12, 12)) for _ in range(3)] for _ in range(draw(ints(1, 4)))]
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    d["sym"] = draw(ints(0, 1)) or (d["kind"] == "grg" and 1 or 0)
    d["msym"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["star"] = draw(ints(0, 1))
    d["dq"] = draw(st.sampled_from([None, None, None, 1e-5, 1e-4, 1e-3]))
    d["pert"] = draw(st.sampled_from([None, None, [1, 0, 0], [1, 2, 1], [0, 1, 0]]))
    d["cut"] = draw(st.sampled_from([None, None, 0.5, 2.0, 5.0]))
    d["factor"] = draw(st.sampled_from([None, None, 10.0]))
    d["temps"] = draw(st.lists(st.sampled_from([300, 1000, 50, 5]), min_size=1, max_size=2))
    d.update(sig=[0.2], scut=None, r0=1, iso=0, mfp=None, const=1e-12)
    if draw(ints(0, 3)) == 3:
        d["bands"] = draw(st.lists(ints(0, 20), min_size=1, max_size=4))
    return d


def strategy(tier):
    return strategy_()


def derivative(dm, q, cell, factor, qdir=None):
    """Frequencies, eigenvectors and <s|dD/dq|s'> factor^2 (nb, nb, 3) at one q."""
    w, v = np.linalg.eigh(dm.dynmat([q], qdir)[0])
    h = 1e-4
    out = np.zeros((len(w), len(w), 3), complex)
    for a in range(3):
        e = np.zeros(3)
        e[a] = h
        dq = cell @ e
        D = dm.dynmat([q + dq, q - dq, q + 2 * dq, q - 2 * dq])
        d = (4 * (D[0] - D[1]) / (2 * h) - (D[2] - D[3]) / (4 * h)) / 3
        out[..., a] = v.conj().T @ d @ v
    return np.sign(w) * np.sqrt(np.abs(w)) * factor, v, out * factor ** 2


def sets(f):
    """Degenerate sets, or None where a gap is neither clear nor vanishing."""
    d = np.diff(f)
    if np.any((d > 1e-6) & (d < 5e-3)):
        return None
    s = np.concatenate([[0], np.nonzero(d > 1e-4)[0] + 1, [len(f)]])
    return [np.arange(a, b) for a, b in zip(s[:-1], s[1:])]


def check(case):
    case = dict(case)
    if case["route"] == "capacity":
        return capacity(case)
    if case["route"] == "run":
        return in_run(case)
    from phonopy.harmonic.dynamical_matrix import get_dynamical_matrix

    from phono3py.phonon.group_velocity_matrix import GroupVelocityMatrix
    from phono3py.phonon.velocity_operator import VelocityOperator

    c = model.Crystal(case["crystal"])
    ph = model.phono3py_obj(c, fc=False, nac=bool(case["nac"]))
    if case["nac"]:
        nac = c.born(ph.primitive)
        nac["method"] = "wang"
        ph.nac_params = nac
    sc, prim = ph.phonon_supercell, ph.phonon_primitive
    model.set_fc(ph, c, compact=bool(case["compact"]), fc3=False)
    dmp = get_dynamical_matrix(ph.fc2, sc, prim, nac_params=ph.nac_params)
    dm = phonons.Harmonic(sc, prim, c.potential(sc).fc2(), nac=ph.nac_params)
    qs = np.array(case["q"]) / 12.0
    if case["sharp"] == 0:
        qs = qs + np.array([0.0131, 0.0273, -0.0179])
    fac = case["factor"] or phonons.THZ
    cut = 1e-4 if case["cut"] is None else case["cut"]
    cell = np.array(prim.cell)
    symm = ph.primitive_symmetry if case["sym"] else None
    kw = dict(q_length=case["dq"], symmetry=symm, cutoff_frequency=cut)
    if case["factor"]:
        kw["frequency_factor_to_THz"] = fac
    op = case["route"] == "operator"
    o = (VelocityOperator if op else GroupVelocityMatrix)(dmp, **kw)
    o.run([q for q in qs], perturbation=case["pert"])
    V = np.array(o.velocity_operators) if op else np.moveaxis(np.array(o.group_velocity_matrices), 1, -1)
    nb = 3 * len(prim)
    require(V.shape == (len(qs), nb, nb, 3), f"shape {V.shape}")
    rots = [np.array(r) for r in ph.primitive_symmetry.reciprocal_operations]
    rec = np.linalg.inv(cell)
    labels = [case["route"]]
    nt = False
    step = 2e-4 + (case["dq"] or 0) * 20
    for i, q in enumerate(qs):
        f, v, d = derivative(dm, q, cell, fac)
        gam = np.abs(q - np.rint(q)).max() < 1e-9
        if gam and case["nac"]:
            continue
        s = sets(f)
        low = max(cut, 0.3)
        if s is None or np.any(np.abs(f - cut) < 1e-3) or (op and f[0] < (0.3 if not gam else -0.05)):
            continue
        if gam and (np.sort(np.abs(f))[3:] < 0.3).any():
            continue
        fin = V[i][np.ix_(f > low, f > low)]
        require(np.isfinite(fin).all(), "velocities are not finite")
        vm = max(np.abs(fin).max() if fin.size else 0, 1.0)
        close(fin, np.swapaxes(fin.conj(), 0, 1), "operator is Hermitian", rtol=0, atol=1e-7 * vm)
        den = np.sqrt(np.maximum(f, 1e-3))
        R = d / (den[:, None] + den[None] if False else 1)
        ff = np.maximum(f, 1e-3)
        R = d / ((ff[:, None] + ff[None]) if op else 2 * np.sqrt(ff[:, None] * ff[None]))[..., None]
        little = [r for r in rots if np.abs(q - np.rint(q) - r @ (q - np.rint(q))).max() < 1e-7]
        mean = np.eye(3)
        if case["sym"] and not op and case["pert"] is None:
            mean = np.mean([rec @ r @ cell for r in little], axis=0)
        for a in s:
            if f[a].min() < low:
                if not op and f[a].max() < cut - 1e-3:
                    require(np.abs(V[i][a]).max() < 1e-12, "velocity of a mode below the cutoff frequency")
                continue
            if gam and op and len(set(a) & {0, 1, 2}):
                continue
            tr = np.einsum("aax->x", V[i][np.ix_(a, a)]).real
            e = np.einsum("aax->x", R[np.ix_(a, a)]).real @ mean.T
            # frequencies themselves, by finite difference
            close(tr, e, f"sum of velocities of degenerate modes at {q.tolist()}", rtol=0, atol=step * vm * len(a), sig="velocity")
            nt |= bool(np.abs(e).max() > 1e-2)
            if op or not case["sym"] or case["pert"] is not None:
                for b in s:
                    if f[b].min() < low or gam and op and len(set(b) & {0, 1, 2}):
                        continue
                    x = np.einsum("stx,sty->xy", V[i][np.ix_(a, b)], V[i][np.ix_(a, b)].conj())
                    y = np.einsum("stx,sty->xy", R[np.ix_(a, b)], R[np.ix_(a, b)].conj())
                    close(x, y, f"products of off-diagonal velocities at {q.tolist()}", rtol=0,
                          atol=4 * step * vm ** 2 * len(a) * len(b), sig="off-diagonal")
            if not op and len(a) > 1 and (not case["sym"] or case["pert"] is not None):
                # diagonal along the perturbation
                n = np.array([1, 2, 3.0]) if case["pert"] is None else rec @ np.array(case["pert"], float)
                n = n / np.linalg.norm(n)
                B = V[i][np.ix_(a, a)] @ n
                close(B - np.diag(np.diag(B)), np.zeros_like(B), "degenerate modes along the perturbation", rtol=0,
                      atol=1e-4 * vm + step * vm)
                ev = np.linalg.eigvalsh(R[np.ix_(a, a)] @ n)
                close(np.sort(np.diag(B).real), ev, "degenerate perturbation", rtol=0, atol=2 * step * vm, sig="perturbation")
                labels.append("degenerate")
    return dict(nontrivial=nt, labels=sorted(set(labels)))


def in_run(case):
    """Group velocities of a conductivity calculation."""
    c, ph = c14.build(case)
    pp = ph.phph_interaction
    bz = pp.bz_grid
    ng = len(bz.grg2bzg)
    nb = 3 * len(ph.primitive)
    if ng > 60 or ng * nb ** 2 > 5000:
        raise Reject("too big")
    bands = list(range(nb))
    if "bands" in case:
        bands = list(dict.fromkeys(b % nb for b in case["bands"]))
        ph.band_indices = [bands]
        ph.init_phph_interaction(constant_averaged_interaction=case["const"])
    if case["nac"]:
        nac = c.born(ph.primitive)
        nac["method"] = "wang"
        ph.nac_params = nac
        ph.init_phph_interaction(constant_averaged_interaction=case["const"])
    br = c14.run(ph, case)
    gps = np.array(br.grid_points)
    q = gridref.qpoints(ph.phph_interaction.bz_grid)
    gv = np.array(br.group_velocities)
    require(gv.shape == (len(gps), len(bands), 3), f"shape {gv.shape}")
    sc, prim = ph.phonon_supercell, ph.phonon_primitive
    dm = phonons.Harmonic(sc, prim, c.potential(sc).fc2(), nac=ph.nac_params)
    cell = np.array(prim.cell)
    rec = np.linalg.inv(cell)
    rots = [np.array(r) for r in ph.primitive_symmetry.reciprocal_operations]
    nt = False
    count = 0
    labels = ["run", case["kind"]] + (["bands"] if "bands" in case else []) + (["degenerate"] if False else [])
    step = 2e-4 + (case["dq"] or 0) * 20
    norms = {}
    for i, gp in enumerate(gps):
        x = q[gp]
        gam = np.abs(x - np.rint(x)).max() < 1e-9
        if gam and case["nac"]:
            continue
        f, v, d = derivative(dm, x, cell, phonons.THZ)
        s = sets(f)
        if s is None:
            continue
        ff = np.maximum(f, 1e-3)
        y = x - np.rint(x)
        little = [r for r in rots if np.abs(y - r @ y).max() < 1e-7]
        mean = np.mean([rec @ r @ cell for r in little], axis=0)
        vm = max(np.abs(gv[i]).max(), 1.0)
        for a in s:
            if f[a].min() < 0.3 or any(b not in bands for b in a):
                continue
            e = np.einsum("aax->x", d[np.ix_(a, a)]).real @ mean.T / (2 * ff[a].mean())
            g = gv[i][[bands.index(b) for b in a]].sum(axis=0)
            close(g, e, f"group velocity at {x.tolist()}, bands {a}", rtol=0, atol=step * vm * len(a), sig="group velocity")
            nt |= bool(np.abs(e).max() > 1e-2)
            count += 1
            if len(a) > 1:
                labels.append("degenerate")
            else:
                norms.setdefault((round(f[a[0]], 3), a[0]), []).append(np.linalg.norm(g))
    gg = np.array(br.gv_by_gv)
    if case["star"]:
        # the sum over the star is invariant
        for i, gp in enumerate(gps):
            y = q[gp] - np.rint(q[gp])
            little = sum(np.abs(y - r @ y - np.rint(y - r @ y)).max() < 1e-7 for r in rots)
            if case["msym"] and case["sym"]:
                e = sum(np.einsum("bx,by->bxy", gv[i] @ (rec @ r @ cell).T, gv[i] @ (rec @ r @ cell).T) for r in rots) / little
                e = np.stack([e[:, a, b] for a, b in c14.ORDER], axis=-1)
                close(gg[i], e, "products of group velocities over the star", rtol=1e-6, atol=1e-6 * max(np.abs(e).max(), 1e-3))
    return dict(nontrivial=nt and count > 0, labels=sorted(set(labels)))


def capacity(case):
    """Heat-capacity matrices reduce to mode heat capacities."""
    from phono3py.phonon.heat_capacity_matrix import mode_cv_matrix

    f = np.sort([0.05 + (abs(a) + abs(b) * 0.13 + abs(c) * 0.017) for a, b, c in case["q"]])
    for t in case["temps"]:
        e = f * ref3.THZEV
        x = e / (ref3.KBEV * t)
        if x.max() > 100:
            continue
        m = np.array(mode_cv_matrix(t, e, cutoff=1e-7))
        require(m.shape == (len(f), len(f)), "shape")
        close(m, m.T, "heat-capacity matrix is symmetric", rtol=1e-6, atol=1e-25)
        close(np.diag(m), c14.heat_capacity(f, t, 1e-4), "diagonal of heat-capacity matrix", rtol=2e-5 * (1 + x.max()), atol=1e-25)
        n = 1 / np.expm1(x)
        for i in range(len(f)):
            for j in range(len(f)):
                d = x[i] - x[j]
                if abs(e[i] - e[j]) < 1e-6:
                    continue
                r = ref3.KBEV * np.expm1(d) / d * ((x[i] + x[j]) / 2) ** 2 * n[i] * (n[j] + 1)
                close([m[i, j]], [r], "off-diagonal heat capacity", rtol=3e-5 * (1 + x.max()), atol=1e-30)
    return dict(nontrivial=len(f) > 1, labels=["capacity"])
