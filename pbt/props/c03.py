"""C03: triplets at a grid point."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gridref
from pbt.core import Reject, require, same


@st.composite
def strategy_(draw):
    d = draw(gridref.gridcases(raw=True))
    if draw(st.booleans()):
        d.pop("len", None)
        d["kind"] = "mesh"
        d.pop("gm", None)
        n = draw(gridref.ints(1, 5))
        d["mesh"] = [n, n, n] if draw(st.booleans()) else [draw(gridref.ints(1, 5)) for _ in range(3)]
    d["gp"] = draw(gridref.ints(0, 999))
    d["swap"] = draw(gridref.ints(0, 3)) and 1
    d["itr"] = draw(gridref.ints(0, 3)) and 1
    d["msym"] = draw(gridref.ints(0, 3)) and 1
    return d


def strategy(tier):
    return strategy_()


def check(case):
    from phono3py.phonon3.triplets import (
        get_all_triplets,
        get_nosym_triplets_at_q,
        get_triplets_at_q,
    )

    try:
        bz, lat, ds = gridref.make_grid(case, maxn=260)
    except RuntimeError as e:
        if "broken" in str(e):
            raise Reject("grid refused")
        raise
    D = np.array(bz.D_diag)
    N = int(np.prod(D))
    if N > 400:
        raise Reject("too big")
    adrs = np.array(bz.addresses)
    b2g = np.array(bz.bzg2grg)
    gp = case["gp"] % len(adrs)
    q = gridref.qpoints(bz)
    swap, itr = bool(case["swap"]), bool(case["itr"])
    kw = dict(swappable=swap, is_time_reversal=itr)
    rot = np.array(bz.rotations)
    if not case["msym"]:
        rot = np.eye(3, dtype="int64").reshape(1, 3, 3)
        kw["reciprocal_rotations"] = rot
    tri, w, mt, mq = [np.array(x) for x in get_triplets_at_q(gp, bz, **kw)]
    # reference group: all given operations with/without inversion that leave q invariant mod G
    ops = {tuple(map(int, r.ravel())) for r in rot}
    if itr:
        ops |= {tuple(-x for x in r) for r in ops}
    ga = np.array([[i % D[0], (i // D[0]) % D[1], i // (D[0] * D[1])] for i in range(N)])
    mul = np.array([1, D[0], D[0] * D[1]])
    a0 = adrs[gp]
    little = []
    for r in ops:
        R = np.array(r).reshape(3, 3)
        if (np.mod(R @ a0 - a0, D) == 0).all():
            little.append(np.mod(ga @ R.T, D) @ mul)
    little = np.array(little)
    labq = little.min(axis=0)
    partner = np.mod(-a0 - ga, D) @ mul
    labt = np.minimum(labq, labq[partner]) if swap else labq
    require(mq.shape == (N,) and mt.shape == (N,), "map shapes")
    for name, lab, mp in (("map_q", labq, mq), ("map_triplets", labt, mt)):
        orb = {}
        for g in range(N):
            orb.setdefault(int(lab[g]), []).append(g)
        for m in orb.values():
            v = set(int(x) for x in mp[m])
            require(len(v) == 1 and v <= set(m), f"{name}: orbit {m[:6]} maps to {sorted(v)[:6]}")
        require(len(np.unique(mp)) == len(orb), f"{name}: {len(np.unique(mp))} classes, expected {len(orb)}")
    reps = np.unique(mt)
    require(tri.shape == (len(reps), 3), f"triplets shape {tri.shape}, classes {len(reps)}")
    same(w, [np.sum(mt == r) for r in reps], "weights")
    dev = verify(bz, lat, gp, tri, reps, adrs, b2g, q)
    if not swap and not case["msym"] and not itr:
        same(w, np.ones(N, int), "no reduction without symmetry")
    allt = np.array(get_all_triplets(gp, bz))
    dev = dev or verify(bz, lat, gp, allt, np.arange(N), adrs, b2g, q)
    t2, w2, mt2, mq2 = [np.array(x) for x in get_nosym_triplets_at_q(gp, bz)]
    same(t2, allt, "nosym triplets")
    same(w2, np.ones(N, int), "nosym weights")
    same(mt2, np.arange(N), "nosym map_triplets")
    same(mq2, np.arange(N), "nosym map_q")
    same(tri, allt[reps], "reduced triplets are a subset of all triplets")
    labels = [case["kind"], "dense" if case["dense"] else "sparse", f"swap{int(swap)}", f"itr{int(itr)}"]
    if len(little) > 2:
        labels.append("little-group>2")
    if np.sum(b2g == b2g[gp]) > 1:
        labels.append("q-on-surface")
    if gp >= N:
        labels.append("gp>=N")
    return dict(nontrivial=1 < len(reps) < N, labels=labels, deviations=dev)


def verify(bz, lat, gp, tri, reps, adrs, b2g, q):
    require((tri >= 0).all() and (tri < len(adrs)).all(), "triplet index range")
    require((b2g[tri[:, 0]] == b2g[gp]).all(), "first member is not the grid point")
    same(b2g[tri[:, 1]], reps, "second member is not the representative q'")
    s = q[tri].sum(axis=1)
    require(np.abs(s - np.rint(s)).max() < 1e-8, "q+q'+q'' is not a reciprocal lattice vector")
    # smallest |G| among all images
    Bm = np.linalg.inv(lat)
    G2 = ((np.rint(s) @ Bm.T) ** 2).sum(1)
    img = {}
    for i, g in enumerate(b2g):
        img.setdefault(int(g), []).append(i)
    scale = 0.05 * (np.linalg.norm(gridref.reduce_basis(Bm.T), axis=1).min() ** 2)
    n = len(tri)
    dev = []
    for i in range(n) if n <= 60 else np.linspace(0, n - 1, 60).astype(int):
        c = [q[img[int(b2g[t])]] for t in tri[i]]
        S = np.rint((c[0][:, None, None] + c[1][None, :, None] + c[2][None, None]).reshape(-1, 3))
        m = ((S @ Bm.T) ** 2).sum(1).min()
        require((G2[i] < 1e-8) == (m < 1e-8), f"triplet {tri[i].tolist()}: G=0 reachable {m < 1e-8}, chosen |G|^2={G2[i]:.4f}")
        if G2[i] > m + scale:
            what = f"triplet {tri[i].tolist()}: |G|^2={G2[i]:.5f}, smallest {m:.5f}"
            # Recorded finding: without G=0 the first images in the map are taken.
            first = [img[int(b2g[t])][0] for t in tri[i]]
            require(tri[i].tolist() == first, what, "triplet-with-larger-G")
            dev = [("first-images-instead-of-smallest-G", what)]
    return dev
