"""C04: tetrahedron and smearing weights."""
import numpy as np
from hypothesis import strategies as st

from pbt import gridref, model, tetra
from pbt.core import Reject, close, require, same

ints = gridref.ints


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["grid", "triplets", "triplets"]))
    d = draw(gridref.gridcases(raw=(kind == "grid"), grgmat=False))
    d["what"] = kind
    d["nb"] = draw(ints(1, 3))
    d["vals"] = draw(st.sampled_from(["rand", "ties", "smooth", "flat"]))
    d["rs"] = draw(ints(0, 99999))
    d["nw"] = draw(ints(1, 5))
    if kind == "grid":
        d["fn"] = draw(st.sampled_from("IJ"))
        d["sub"] = draw(ints(0, 2))
    else:
        if draw(ints(0, 1)) or d["kind"] != "mesh":
            d["kind"] = draw(st.sampled_from(["mesh", "mesh", "grg"]))
            d["mesh"] = [draw(ints(1, 4)) for _ in range(3)]
            if draw(ints(0, 1)):
                d["mesh"] = [d["mesh"][0]] * 3
            d["len"] = draw(ints(6, 30)) / 2.0
            d["snf"] = draw(ints(0, 1))
            d["coord"] = draw(st.sampled_from(["reciprocal", "direct"]))
        d["gp"] = draw(ints(0, 500))
        d["sigma"] = draw(st.sampled_from([0, 0, 5, 20, 60]))
        d["cut"] = draw(st.sampled_from([0, 0, 10, 25, 40]))
        d["col"] = draw(ints(0, 1))
        d["msym"] = draw(ints(0, 2)) and 1
        d["neg"] = draw(ints(0, 3)) == 3 and 1 or 0
    d.pop("shift", None)
    return d


def strategy(tier):
    return strategy_()


def values(case, N, D, nb):
    rs = np.random.RandomState(case["rs"])
    v = case["vals"]
    if v == "ties":
        f = rs.randint(0, 6, (N, nb)) / 2.0
    elif v == "flat":
        f = np.repeat(rs.randint(0, 5, (1, nb)), N, axis=0) + 1.0 * (rs.rand(N, nb) > 0.7)
    elif v == "smooth":
        a = np.array([[i % D[0], (i // D[0]) % D[1], i // (D[0] * D[1])] for i in range(N)]) / np.array(D)
        f = np.zeros((N, nb))
        for b in range(nb):
            c = rs.rand(3) * 2
            f[:, b] = 2 + b + (c * (1 - np.cos(2 * np.pi * a))).sum(1)
    else:
        f = rs.rand(N, nb) * 5
    return f


def points(case, f, extra=0.0):
    """Sampling points away from vertex values (the weights are discontinuous there)."""
    rs = np.random.RandomState(case["rs"] + 1)
    lo, hi = f.min() - 0.5 - extra, f.max() + 0.5 + extra
    return lo + (hi - lo) * rs.rand(case["nw"])


def check(case):
    return grid_weights(case) if case["what"] == "grid" else triplet_weights(case)


def neighbours(bz, rel, sign=1):
    """GR index of vertices around every GR point; shape (N, 24, 4)."""
    D = np.array(bz.D_diag)
    N = int(np.prod(D))
    mul = np.array([1, D[0], D[0] * D[1]])
    a = np.array([[i % D[0], (i // D[0]) % D[1], i // (D[0] * D[1])] for i in range(N)])
    r = sign * (np.array(rel) @ np.rint(np.array(bz.P)).astype(int).T)
    return np.mod(a[:, None, None] + r[None], D) @ mul


def grid_weights(case):
    from phono3py.other.tetrahedron_method import get_integration_weights, get_unique_grid_points

    try:
        bz, lat, ds = gridref.make_grid(case, maxn=120)
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("grid refused")
        raise
    D = np.array(bz.D_diag)
    N = int(np.prod(D))
    if N > 200:
        raise Reject("too big")
    micro = np.array(bz.microzone_lattice)
    # the micro-parallelepiped spanned by neighbouring points is the sampling lattice
    step = np.linalg.inv(lat) @ np.array(bz.Q) @ np.diag(1.0 / D) @ np.rint(np.array(bz.P))
    close(micro, step, "microzone lattice", rtol=1e-9)
    rel = tetra.checked_tetrahedra(micro, require)
    nbr = neighbours(bz, rel)
    f = values(case, N, D, case["nb"])
    w = points(case, f)
    b2g = np.array(bz.bzg2grg)
    full = f[b2g]
    # reference: sum over 24 tetrahedra of the weight of the central vertex, over six tetrahedra per cell
    fv = f[nbr]  # N, 24, 4, nb
    ref = np.zeros((N, len(w), case["nb"]))
    gap = np.inf
    for m, x in enumerate(w):
        gap = min(gap, np.abs(f - x).min())
        ref[:, m] = tetra.weight(np.moveaxis(fv, 2, -1), 0, x, case["fn"]).sum(axis=1) / 6
    if gap < 1e-6:
        raise Reject("sampling point on a vertex value")
    wg = get_integration_weights(w, full, bz, function=case["fn"])
    scale = max(1.0, np.abs(ref).max())
    close(wg, ref, "integration weights", rtol=1e-7, atol=1e-9 * scale)
    require((wg >= -1e-10).all(), "negative weight")
    if case["fn"] == "J":
        hi = get_integration_weights(np.array([f.max() + 1.0, f.min() - 1.0]), full, bz, function="J")
        close(hi[:, 0].sum(axis=0) / N, np.ones(case["nb"]), "J above all values")
        close(hi[:, 1], np.zeros((N, case["nb"])), "J below all values")
        s = get_integration_weights(np.sort(w), full, bz, function="J")
        require((np.diff(s, axis=1) >= -1e-10).all(), "J is not monotone")
    # subset of grid points (any BZ image), values only on needed points, index map
    if case["sub"]:
        rs = np.random.RandomState(case["rs"] + 2)
        gps = np.array(rs.choice(len(b2g), size=min(len(b2g), 4), replace=False), dtype="int64")
        need = get_unique_grid_points(gps, bz)
        g2 = full.copy()
        mask = np.ones(len(b2g), bool)
        mask[need] = False
        g2[mask] = np.nan
        if case["sub"] == 2:
            perm = rs.permutation(N)
            inv = np.argsort(perm)
            ws = get_integration_weights(w, f[perm], bz, grid_points=gps, bzgp2irgp_map=inv[b2g],
                                         function=case["fn"])
        else:
            ws = get_integration_weights(w, g2, bz, grid_points=gps, function=case["fn"])
        close(ws, ref[b2g[gps]], "weights of a subset of points", rtol=1e-7, atol=1e-9 * scale)
    nz = int((ref > 1e-12).sum())
    return dict(nontrivial=nz > 0 and N > 1, labels=["grid-" + case["fn"], case["vals"], case["kind"],
                                                     f"sub{case['sub']}"])


def make_interaction(case):
    from phono3py import Phono3py

    c = model.Crystal(case["crystal"])
    pm = c.primitive_matrix
    ph = Phono3py(
        c.unitcell, supercell_matrix=np.eye(3, dtype=int), primitive_matrix=pm, log_level=0,
        is_mesh_symmetry=bool(case["msym"]), use_grg=case["kind"] == "grg",
        SNF_coordinates=case.get("coord", "reciprocal"))
    mesh = case["mesh"] if case["kind"] == "mesh" else case["len"]
    if case["kind"] != "mesh":
        vol = ph.primitive.volume
        mesh = min(mesh, (vol * 60) ** (1.0 / 3))
    model.set_mesh(ph, mesh)
    n = len(ph.supercell)
    ph.fc2 = np.zeros((n, n, 3, 3))
    ph.fc3 = np.zeros((n, n, n, 3, 3, 3))
    ph.init_phph_interaction()
    return ph


def gaussian(x, s):
    return np.exp(-x * x / (2 * s * s)) / (s * np.sqrt(2 * np.pi))


def triplet_weights(case):
    from phono3py.phonon3.triplets import get_triplets_integration_weights

    ph = make_interaction(case)
    pp = ph.phph_interaction
    bz = pp.bz_grid
    D = np.array(bz.D_diag)
    N = int(np.prod(D))
    if N > 90:
        raise Reject("too big")
    nb = len(ph.primitive) * 3
    f = values(case, N, D, nb)
    if case["neg"]:
        f = f - 1.0
    b2g = np.array(bz.bzg2grg)
    vec = np.zeros((len(b2g), nb, nb), dtype="complex128") + np.eye(nb)
    pp.set_phonon_data(f[b2g], vec, np.array(bz.addresses))
    gp = case["gp"] % len(b2g)
    pp.set_grid_point(gp)
    pp.set_phonon_data(f[b2g], vec, np.array(bz.addresses))
    tri = np.array(pp.get_triplets_at_q()[0])
    rs = np.random.RandomState(case["rs"] + 5)
    top = 2 * f.max() + 0.5
    w = np.sort(rs.rand(case["nw"]) * (top + 0.5) - 0.5 * case["neg"])
    sigma = case["sigma"] / 100.0 or None
    cut = case["cut"] / 10.0 or None
    col = bool(case["col"])
    g, gz = get_triplets_integration_weights(pp, w, sigma, sigma_cutoff=cut, is_collision_matrix=col)
    g = np.array(g)
    require(g.shape == (3 if col else 2, len(tri), len(w), nb, nb), f"shape {g.shape}")
    f1, f2 = f[b2g[tri[:, 1]]], f[b2g[tri[:, 2]]]
    x = w[None, :, None, None]
    labels = [case["vals"], case["kind"], "sigma" if sigma else "tetrahedron"]
    if sigma:
        a = f1[:, None, :, None]
        b = f2[:, None, None, :]
        d0, d1, d2 = x + a - b, x - a + b, x - a - b
        ref = [gaussian(d2, sigma), gaussian(d0, sigma) - gaussian(d1, sigma)]
        if col:
            ref.append(gaussian(d0, sigma) + gaussian(d1, sigma) + gaussian(d2, sigma))
        ref = np.array(ref)
        if cut:
            labels.append("cutoff")
            z = (abs(d0) > cut * sigma) & (abs(d1) > cut * sigma) & (abs(d2) > cut * sigma)
            edge = np.min([abs(abs(d) - cut * sigma) for d in (d0, d1, d2)], axis=0) < 1e-9
            same(np.array(gz).astype(bool)[~edge], z[~edge], "g_zero of sigma cutoff")
            ref = np.where(z[None] & ~edge[None], 0, ref)
            g = np.where(edge[None], 0, g)
            ref = np.where(edge[None], 0, ref)
        else:
            require(not np.any(gz), "g_zero without cutoff")
        close(g, ref, "smearing weights", rtol=1e-10, atol=1e-13)
        if not cut:
            gp_, _ = get_triplets_integration_weights(pp, w, sigma, is_collision_matrix=col, lang="Py")
            close(gp_, ref, "smearing weights (lang=Py)", rtol=1e-10, atol=1e-13)
    else:
        rel = tetra.checked_tetrahedra(np.array(bz.microzone_lattice), require)
        n1, n2 = neighbours(bz, rel, 1), neighbours(bz, rel, -1)
        fc = np.maximum(f, 0)
        v1 = fc[n1[b2g[tri[:, 1]]]]  # tri, 24, 4, nb
        v2 = fc[n2[b2g[tri[:, 2]]]]
        A = np.moveaxis(v1, 2, -1)[:, :, :, None]  # tri, 24, nb, 1, 4
        B = np.moveaxis(v2, 2, -1)[:, :, None, :]
        ref = np.zeros_like(g)
        bad = np.zeros(g.shape[1:], bool)
        inside = np.zeros(g.shape[1:], bool)
        maybe = np.zeros(g.shape[1:], bool)
        for m, xx in enumerate(w):
            gs = []
            for s in (-A + B, A - B, A + B):
                gs.append(tetra.weight(s, 0, xx, "I").sum(axis=1) / 6)
                bad[:, m] |= (np.abs(s - xx) < 1e-5).any(axis=(1, 4))
                inside[:, m] |= ((s.min(-1) < xx) & (s.max(-1) > xx)).any(axis=1)
            ref[0, :, m] = gs[2]
            ref[1, :, m] = gs[0] - gs[1]
            if col:
                ref[2, :, m] = gs[0] + gs[1] + gs[2]
        scale = max(1.0, np.abs(ref).max())
        g = np.where(bad[None], 0, g)
        close(g, np.where(bad[None], 0, ref), "tetrahedron weights", rtol=1e-7, atol=1e-9 * scale)
        gz = np.array(gz).astype(bool)
        require(not (gz & (np.abs(g) > 0).any(axis=0)).any(), "flagged as zero but not zero")
        require(not (gz & inside & ~bad).any(), "flagged as zero inside a tetrahedron")
        if not case["neg"] and case["rs"] % 3 == 0 and len(tri) <= 12 and bz.Q is not None:
            gpy, _ = get_triplets_integration_weights(pp, w, None, is_collision_matrix=col, lang="Py")
            # the Python version takes phonopy's own decomposition (may choose another diagonal)
            if same_diagonal(bz):
                gpy = np.where(bad[None], 0, gpy)
                close(gpy, np.where(bad[None], 0, ref), "tetrahedron weights (lang=Py)", rtol=1e-7,
                      atol=1e-9 * scale)
                labels.append("lang-Py")
    if case["neg"]:
        labels.append("negative")
    if col:
        labels.append("collision")
    return dict(nontrivial=bool((np.abs(g) > 1e-12).any()) and N > 1, labels=labels)


def same_diagonal(bz):
    from phonopy.structure.tetrahedron_method import TetrahedronMethod
    from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

    a = {frozenset(map(tuple, t.tolist())) for t in np.array(TetrahedronMethod(bz.microzone_lattice).tetrahedra)}
    b = {frozenset(map(tuple, t.tolist())) for t in np.array(get_tetrahedra_relative_grid_address(bz.microzone_lattice))}
    return a == b
