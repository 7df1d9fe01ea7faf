"""C02: irreducible grid points = orbits under the reciprocal point group."""
import numpy as np

from pbt import gridref
from pbt.core import Violation, require, same


def strategy(tier):
    return gridref.gridcases(shift=True, raw=False)


def recip_ops(ds, tr):
    if ds is None:
        rots = [np.eye(3, dtype=int)]
    else:
        rots = [np.array(r).T for r in ds.rotations]
    out = {tuple(map(int, r.ravel())) for r in rots}
    if tr:
        out |= {tuple(-x for x in r) for r in out}
    return out


def check(case):
    from phono3py.phonon.grid import (
        GridMatrix,
        get_grid_points_by_rotations,
        get_ir_grid_points,
    )

    tr = bool(case.get("tr", 1))
    try:
        bz, lat, ds = gridref.make_grid(case)
    except RuntimeError as e:
        require("broken" in str(e), f"unexpected RuntimeError {e}")
        return refused(case, tr, str(e))
    ops = recip_ops(ds, tr)
    got = {tuple(map(int, r.ravel())) for r in np.array(bz.reciprocal_operations)}
    require(got == ops and len(bz.reciprocal_operations) == len(ops),
            f"reciprocal operations: {len(got)} of {len(bz.reciprocal_operations)} distinct, expected {len(ops)}")
    rops = np.array(bz.reciprocal_operations)
    D = np.array(bz.D_diag)
    N = int(np.prod(D))
    Q = np.array(bz.Q)
    ps = np.zeros(3) if bz.PS is None else np.array(bz.PS)
    q = gridref.qpoints(bz)
    g2b = np.array(bz.grg2bzg)
    b2g = np.array(bz.bzg2grg)
    B = np.linalg.inv(lat)
    rc = np.array(bz.rotations_cartesian)
    require(rc.shape == rops.shape, "rotations_cartesian shape")
    for r, c in zip(rops, rc):
        require(np.abs(B @ r @ lat - c).max() < 1e-6, "rotations_cartesian != B R B^-1")
        require(np.abs(c @ c.T - np.eye(3)).max() < 1e-4, "rotation is not orthogonal")

    Qi = np.linalg.inv(Q.astype(float))

    def gr_index(qq):
        """GR index of q-points, -1 when not on the grid."""
        t = (qq @ Qi.T) * D - ps / 2.0
        r = np.rint(t)
        on = np.abs(t - r).max(axis=-1) < 1e-6
        idx = np.mod(r.astype(int), D) @ [1, D[0], D[0] * D[1]]
        return np.where(on, idx, -1)

    img = np.array([gr_index(q[g2b] @ r.T) for r in rops])  # (rot, N) GR -> GR
    require((img >= 0).all(), "accepted grid is not invariant under the point group")
    # rotated grid points
    shifted = bz.PS is not None and np.any(bz.PS)
    for gp in _some(len(q), 40):
        ref = img[:, b2g[gp]]
        if not shifted:
            rg = get_grid_points_by_rotations(gp, bz)
            same(b2g[rg], ref, f"get_grid_points_by_rotations({gp})")
            same(rg, g2b[ref], f"get_grid_points_by_rotations({gp}) representative")
            rs = get_grid_points_by_rotations(gp, bz, with_surface=True)
            same(b2g[rs], ref, f"get_grid_points_by_rotations({gp}, with_surface)")
            d = np.abs(q[rs] - np.array([r @ q[gp] for r in rops])).max()
            require(d < 1e-8, f"with_surface rotation of BZ point {gp} gives another image (diff {d:.3g})")
            sel = np.array(bz.rotations)[: max(1, len(rops) // 2)]
            rg2 = get_grid_points_by_rotations(gp, bz, reciprocal_rotations=sel)
            same(rg2, rg[: len(sel)], "explicit rotations")
    # orbits
    ir, w, mp = get_ir_grid_points(bz)
    ir, w, mp = np.array(ir), np.array(w), np.array(mp)
    require(mp.shape == (N,), "map shape")
    lab = img.min(axis=0)  # orbit label of each point
    # group orbits: label equality
    rep = {}
    for g in range(N):
        rep.setdefault(int(lab[g]), []).append(g)
    for members in rep.values():
        vals = set(mp[members])
        require(len(vals) == 1 and vals <= set(members), f"map of orbit {members[:8]}: {vals}")
    same(ir, np.unique(mp), "ir_grid_points")
    require(len(ir) == len(rep), f"number of ir points {len(ir)} != number of orbits {len(rep)}")
    same(w, [np.sum(mp == g) for g in ir], "ir weights")
    require(int(np.sum(w)) == N, "sum of weights")
    labels = [case["kind"], "tr" if tr else "notr"]
    if bz.grid_matrix is not None:
        labels.append("snf")
    if shifted:
        labels.append("shift")
    if len(q) > N:
        labels.append("surface")
    return dict(nontrivial=N > len(ir) > 1, labels=labels)


def _some(n, k):
    return range(n) if n <= k else [int(x) for x in np.linspace(0, n - 1, k)]


def refused(case, tr, msg):
    """A grid was refused: the grid must really break the symmetry."""
    from phono3py.phonon.grid import GridMatrix

    require(case["kind"] != "grg", "generalized regular grid by length refused: " + msg)
    lat, ds = gridref.lattice_of(case)
    if case["kind"] == "mesh":
        A = np.diag(case["mesh"])
    elif case["kind"] == "len":
        L = case["len"]
        vol = abs(np.linalg.det(lat))
        if L ** 3 / vol > 900:
            L = (vol * 900) ** (1.0 / 3)
        A = np.diag(GridMatrix(L, lat, symmetry_dataset=ds, use_grg=False).D_diag)
    else:
        tm = np.rint(np.linalg.inv(np.array(ds.transformation_matrix))).astype(int)
        A = (tm * np.array(case["gm"])).T
    s = np.array(case.get("shift") or [0, 0, 0]) / 2.0
    Ai = np.linalg.inv(A.astype(float))
    ok = True
    for r in recip_ops(ds, tr):
        R = np.array(r).reshape(3, 3)
        M = A @ R @ Ai
        if np.abs(M - np.rint(M)).max() > 1e-8:
            ok = False
            break
        t = M @ s - s
        if np.abs(t - np.rint(t)).max() > 1e-8:
            ok = False
            break
    require(not ok, f"symmetric grid refused: {msg}")
    return dict(nontrivial=True, labels=["refused", "refused-shift" if "shift" in msg else "refused-mesh"])
