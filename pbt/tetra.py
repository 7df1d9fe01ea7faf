"""Exact linear-tetrahedron integrals by simplex splines.

For f linear on a tetrahedron with vertex values f_0..f_3 the fraction of the
volume, weighted with barycentric coordinate i, in which f equals w is
1/4 times the normalized cubic B-spline with knots {f_0..f_3, f_i}
(Curry-Schoenberg).  Nothing here is taken from phono3py.
"""
import itertools

import numpy as np


def bspline(t, x, k):
    """Normalized-to-partition-of-unity basis spline N_{0,k}; t[..., k+2] sorted."""
    t = np.asarray(t)
    N = [((x >= t[..., i]) & (x < t[..., i + 1])).astype(float) for i in range(k + 1)]
    for d in range(1, k + 1):
        M = []
        for i in range(k + 1 - d):
            a = t[..., i + d] - t[..., i]
            b = t[..., i + d + 1] - t[..., i + 1]
            u = np.where(a > 0, (x - t[..., i]) / np.where(a > 0, a, 1), 0) * N[i]
            v = np.where(b > 0, (t[..., i + d + 1] - x) / np.where(b > 0, b, 1), 0) * N[i + 1]
            M.append(u + v)
        N = M
    return N[0]


def weight(f, i, x, function="I"):
    """Weight of vertex i of tetrahedra with vertex values f[..., 4] at x (broadcast)."""
    f = np.asarray(f, dtype=float)
    t = np.sort(np.concatenate([f, f[..., i:i + 1]], axis=-1), axis=-1)
    if function == "I":
        w = t[..., 4] - t[..., 0]
        return np.where(w > 0, bspline(t, x, 3) / np.where(w > 0, w, 1), 0)
    ext = np.concatenate([t] + [t[..., 4:5] + m for m in (1.0, 2.0, 3.0, 4.0)], axis=-1)
    s = sum(bspline(ext[..., m:m + 6], x, 4) for m in range(4))
    return 0.25 * np.where(x >= t[..., 4], 1.0, np.where(x < t[..., 0], 0.0, s))


def check_tetrahedra(rel, micro, require):
    """Verify that 24 x 4 relative addresses are a translation-invariant tiling.

    micro: microzone basis vectors (columns).
    """
    rel = np.array(rel)
    require(rel.shape == (24, 4, 3), "tetrahedra shape")
    require((rel[:, 0] == 0).all(), "first vertex is not the point itself")
    T = [frozenset(map(tuple, t.tolist())) for t in rel]
    require(len(set(T)) == 24, "tetrahedra are not distinct")
    dets = np.abs(np.rint(np.linalg.det(rel[:, 1:] - rel[:, :1])))
    require((dets == 1).all(), "tetrahedra do not have 1/6 of the cell volume")
    S = set(T)
    for t in T:
        for v in t:
            s = frozenset(tuple(a - b for a, b in zip(x, v)) for x in t)
            require(s in S, "tetrahedra around a point are not consistent with its neighbours")
    # tiling: a generic point is in exactly one tetrahedron (24 -> 6 classes of translations)
    classes = {min(tuple(sorted(tuple(a - b for a, b in zip(x, v)) for x in t)) for v in t) for t in T}
    require(len(classes) == 6, "number of tetrahedra per cell is not six")
    rs = np.random.RandomState(7)
    for p in rs.rand(12, 3):
        n = 0
        for c in classes:
            V = np.array(c, dtype=float)
            for sh in itertools.product((-2, -1, 0, 1, 2), repeat=3):
                lam = np.linalg.solve((V[1:] - V[0]).T, p + sh - V[0])
                if lam.min() > 0 and lam.sum() < 1:
                    n += 1
        require(n == 1, f"tetrahedra cover a point {n} times")
    # common main diagonal is a shortest one
    lens = {d: np.linalg.norm(np.array(micro) @ np.array(d))
            for d in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1))}
    used = set(lens)
    for c in classes:
        diffs = {tuple(np.array(a) - b) for a in c for b in c}
        used &= {d for d in lens if d in diffs or tuple(-x for x in d) in diffs}
    require(len(used) == 1, "tetrahedra do not share one main diagonal")
    d = used.pop()
    require(lens[d] <= min(lens.values()) * (1 + 1e-6), f"main diagonal {d} is not the shortest")


_checked = {}


def checked_tetrahedra(micro, require):
    """Relative addresses used by phono3py after verification."""
    from phono3py.other.tetrahedron_method import get_tetrahedra_relative_grid_address

    rel = np.array(get_tetrahedra_relative_grid_address(micro))
    k = (rel.tobytes(), np.round(np.array(micro), 12).tobytes())
    if k not in _checked:
        check_tetrahedra(rel, micro, require)
        _checked[k] = 1
    return rel
