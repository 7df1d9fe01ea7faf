"""C21: mode Grueneisen parameters."""
import contextlib
import io
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from pbt import model, phonons
from pbt.core import Reject, close, require
from pbt.props import c11

ints = st.integers


@st.composite
def strategy_(draw):
    d = dict(route=draw(st.sampled_from(["sum", "strain", "sum", "strain", "files"])))
    if d["route"] == "strain":
        names = model.ONE + model.TWO
        d["crystal"] = draw(model.crystals(names=names, sc="any", size=56, wrap=True))
        d["crystal"]["sc"] = draw(st.sampled_from([[3, 3, 3], [2, 2, 2], d["crystal"]["sc"]]))
        # short range, so that every interaction reaches one image only
        d["crystal"]["ff"]["rc"] = draw(st.sampled_from([110, 125, 145, 160]))
        if draw(ints(0, 3)):
            d["crystal"]["ff"].update(a=0, b=0)
    else:
        d["crystal"] = draw(model.crystals(neg=True, sc="any", size=24, wrap=True))
    d["clamped"] = draw(ints(0, 1))
    d["nac"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["compact"] = draw(ints(0, 1))
    d["compact2"] = draw(ints(0, 1))
    d["q"] = [[draw(ints(-12, 12)) for _ in range(3)] for _ in range(draw(ints(1, 4)))]
    d["mesh"] = [draw(ints(1, 4)) for _ in range(3)]
    d["gamma"] = draw(ints(0, 3)) == 0 and 1 or 0
    d["qdir"] = [draw(ints(-2, 2)) for _ in range(3)]
    d["npath"] = draw(ints(2, 4))
    d["sharp"] = draw(ints(0, 1))
    d["rotations"] = draw(ints(0, 1))
    d["what"] = draw(st.sampled_from(["mesh", "band", "qpoints"]))
    d["name"] = draw(st.sampled_from([None, "x"]))
    return d


def strategy(tier):
    return strategy_()


def hessian(pot, strain):
    """Second derivatives of the homogeneously strained crystal."""
    import copy
    p = copy.copy(pot)
    p.v = pot.v @ (np.eye(3) + strain).T
    p.r = np.sqrt((p.v ** 2).sum(1))
    d = p.r - pot.r
    n = p.n
    nn = (p.v / p.r[:, None])[:, :, None] * (p.v / p.r[:, None])[:, None, :]
    K = 0.5 * (p.k + p.c * d)[:, None, None] * nn
    K += 0.5 * ((p.k * d + 0.5 * p.c * d ** 2) / p.r)[:, None, None] * (np.eye(3) - nn)
    fc = np.zeros((n, n, 3, 3))
    i, j = p.i, p.j
    np.add.at(fc, (i, i), K)
    np.add.at(fc, (j, j), K)
    np.add.at(fc, (i, j), -K)
    np.add.at(fc, (j, i), -K)
    rho = np.bincount(i, pot.w * d, minlength=n)
    for s in range(n):
        at, g, h = p._site(s)
        if len(at):
            G = (p.b[s] + p.a[s] * rho[s]) * np.einsum("ax,by->abxy", g, g)
            fc[np.ix_(at, at)] += G + (p.b[s] * rho[s] + 0.5 * p.a[s] * rho[s] ** 2) * h
    return fc


def mean_vectors(ph):
    """Average shortest vectors from primitive atoms to supercell atoms (n_prim, n_super, 3)."""
    sc = ph.supercell
    sv = phonons.shortest(np.array(sc.cell), np.array(sc.scaled_positions), frm=list(map(int, ph.primitive.p2s_map)))
    return np.array([[v.mean(0) for v in row] for row in sv])


def relax(ph, b, fc2):
    """Internal displacements (n_prim, 3, 3, 3) per strain from the force response b."""
    p2s = list(map(int, ph.primitive.p2s_map))
    m = [p2s.index(int(x)) for x in ph.primitive.s2p_map]
    n = len(p2s)
    K = np.zeros((n, 3, n, 3))
    for k, x in enumerate(m):
        K[:, :, x] += fc2[p2s, k]
    # response of the optical modes; a net force (finite supercells) moves no atom against another
    im = np.repeat(1 / np.sqrt(np.array(ph.primitive.masses)), 3)
    K = K.reshape(3 * n, 3 * n) * im[:, None] * im
    w, v = np.linalg.eigh((K + K.T) / 2)
    o = np.argsort(np.abs(w))
    w, v = w[o[3:]], v[:, o[3:]]
    if len(w) and np.abs(w).min() < 1e-4 * np.abs(w).max():
        raise Reject("soft internal mode")
    G = (v / w) @ v.T * im[:, None] * im
    return -(G @ b.reshape(3 * n, 9)).reshape(n, 3, 3, 3), m


def by_sum(ph, pot, clamped):
    """Strain derivatives (3, 3, n, n, 3, 3) of the force constants from fc3."""
    R = mean_vectors(ph)
    p2s = list(map(int, ph.primitive.p2s_map))
    fc2, fc3 = pot.fc2(), pot.fc3()
    ns = len(fc2)
    n = len(p2s)
    if clamped:
        X = np.zeros((n, 3, 3, 3))
        m = [p2s.index(int(x)) for x in ph.primitive.s2p_map]
    else:
        b = np.einsum("nkab,nky->naby", fc2[p2s], R)
        X, m = relax(ph, b, fc2)
    out = np.zeros((3, 3, ns, ns, 3, 3))
    for a, p in enumerate(p2s):
        Y = np.einsum("ax,ky->kaxy", np.eye(3), R[a]) + X[m]
        out[:, :, p] = np.einsum("jkbca,kaxy->xyjbc", fc3[p], Y)
    return out


def by_strain(ph, pot, clamped):
    """The same from the strained crystal."""
    p2s = list(map(int, ph.primitive.p2s_map))
    fc2 = pot.fc2()
    ns = len(fc2)
    h = 1e-4
    X = None
    if not clamped:
        b = np.zeros((len(p2s), 3, 3, 3))
        for x, y in itertools.product(range(3), repeat=2):
            e = np.zeros((3, 3))
            e[x, y] = h
            u = np.zeros((ns, 3))
            b[:, :, x, y] = -(pot.forces(u, e) - pot.forces(u, -e))[p2s] / (2 * h)
        X, m = relax(ph, b, fc2)
    out = np.zeros((3, 3, ns, ns, 3, 3))
    import copy
    for x, y in itertools.product(range(3), repeat=2):
        f = []
        for s in (h, -h):
            e = np.zeros((3, 3))
            e[x, y] = s
            q = copy.copy(pot)
            if X is not None:
                # internal displacements as a change of the bond vectors
                u = s * X[m][:, :, x, y]
                F = np.eye(3) + e
                q.v = pot.v + (u[pot.j] - u[pot.i]) @ np.linalg.inv(F).T
            f.append(hessian_of(pot, q.v, e))
        out[x, y] = (f[0] - f[1]) / (2 * h)
    return out


def hessian_of(pot, v, e):
    """Hessian with bond vectors v before strain but natural lengths of pot."""
    import copy
    p = copy.copy(pot)
    p.v = v
    q = copy.copy(pot)
    # hessian() takes natural lengths from .r of its argument
    q.v, q.r = v, pot.r
    return hessian(q, e)


def unique_reach(ph, pot):
    """Every interaction reaches only one image of an atom."""
    lat = np.array(ph.supercell.cell)
    reach = pot.r[np.abs(pot.k) > 0].max(initial=0)
    if np.any(pot.b) or np.any(pot.a):
        reach = max(reach, 2 * pot.r[pot.w > 0].max(initial=0))
    T = np.array(list(itertools.product(range(-3, 4), repeat=3)))
    T = T[np.abs(T).sum(1) > 0] @ lat
    return np.sqrt((T ** 2).sum(1)).min() > 2 * reach + 1e-6


def expected(dms, dm, q, qdir):
    """Return eigenvalues and <e|dD|e> averaged over degenerate sets (nb, 3, 3)."""
    D = dm.dynmat([q], qdir)[0]
    w, v = np.linalg.eigh(D)
    g = np.zeros((len(w), 3, 3))
    for x, y in itertools.product(range(3), repeat=2):
        M = dms[x][y].dynmat([q])[0]
        g[:, x, y] = np.einsum("is,ij,js->s", v.conj(), M, v).real
    return w, g


def sets(w):
    tol = 1e-6 * np.abs(w).max()
    s = np.concatenate([[0], np.nonzero(np.diff(w) > tol)[0] + 1, [len(w)]])
    # too narrow gaps make the averages ill defined
    d = np.diff(w)
    if np.any((d > tol * 1e-2) & (d < 1e2 * tol)):
        raise Reject("almost degenerate modes")
    return [np.arange(a, b) for a, b in zip(s[:-1], s[1:])]


def compare(what, got, freq, w, num, gamma):
    """got: Grueneisen tensors (nb, 3, 3); w eigenvalues; num <e|dD|e>."""
    f = np.sign(w) * np.sqrt(np.abs(w)) * phonons.THZ
    close(np.sign(freq) * freq ** 2, np.sign(f) * f ** 2, what + ": frequencies", rtol=1e-5, atol=1e-5)
    require(np.isfinite(got[np.abs(w) > 1e-9 * np.abs(w).max()]).all(), what + ": not finite")
    got = np.where(np.isfinite(got), got, 0)
    ok = np.ones(len(w), bool)
    if gamma and (len(w) < 4 or np.sort(np.abs(w))[3] > 1e-4 * np.abs(w).max()):
        ok[np.argsort(np.abs(w))[:3]] = False
        require(not got[~ok].any(), what + ": acoustic modes at Gamma")
    ok &= np.abs(w) > 1e-5 * np.abs(w).max()
    scale = np.abs(num).max() + 1e-12
    for s in sets(w):
        if not ok[s].all():
            continue
        a = (got[s] * -2 * w[s][:, None, None]).mean(0)
        close(a, num[s].mean(0), what, rtol=0, atol=2e-5 * scale + 1e-8, sig=what)
    return bool(ok.any() and np.abs(num[ok]).max() > 1e-6)


def check(case):
    from phono3py.phonon3.gruneisen import Gruneisen, run_gruneisen_parameters

    c = model.Crystal(case["crystal"])
    if case["crystal"].get("psc"):
        raise Reject("no phonon supercell here")
    ph = model.phono3py_obj(c, fc=False, nac=bool(case["nac"]))
    nat, ns = len(ph.primitive), len(ph.supercell)
    if nat * nat * ns * len(case["q"]) > 4000 or ns > 64 or nat > 8:
        raise Reject("too big")
    pot = c.potential(ph.supercell)
    model.set_fc(ph, c, compact=bool(case["compact"]))
    if case["compact"] and not case["compact2"]:
        ph.fc2 = pot.fc2()
    if case["nac"]:
        nac = c.born(ph.primitive)
        nac["method"] = "wang"
        ph.nac_params = nac
    clamped = bool(case["clamped"])
    route = case["route"]
    if route == "strain":
        if not unique_reach(ph, pot):
            raise Reject("interaction reaches several images")
        dfc = by_strain(ph, pot, clamped)
    else:
        dfc = by_sum(ph, pot, clamped)
    dm = phonons.Harmonic(ph.supercell, ph.primitive, pot.fc2(), nac=ph.nac_params)
    dms = [[phonons.Harmonic(ph.supercell, ph.primitive, dfc[x, y]) for y in range(3)] for x in range(3)]
    if case["sharp"]:
        qs = np.array(case["q"]) / 12.0
    else:
        qs = np.array(case["q"]) / 12.0 + np.array([0.0131, 0.0273, -0.0179])
    if case["gamma"]:
        qs = np.concatenate([qs, [[0.0, 0, 0]]])
    qdir = np.array(case["qdir"], float) if any(case["qdir"]) and case["nac"] else None
    args = (ph.fc2, ph.fc3, ph.supercell, ph.primitive)
    kw = dict(nac_params=ph.nac_params, nac_q_direction=qdir, ion_clamped=clamped)
    labels = [route, "clamped" if clamped else "relaxed", "nac" if case["nac"] else "no-nac"]
    nt = False
    if route == "files":
        return files(case, ph, args, kw, dm, dms, qs, qdir, labels)
    g = Gruneisen(*args, **kw)
    mode = case["what"] if route == "sum" else "qpoints"
    if mode == "qpoints":
        g.set_qpoints(qs)
        g.run()
        gam, fr = g.get_gruneisen_parameters(), g._frequencies
        for q, x, f in zip(qs, gam, fr):
            z = np.abs(q).max() < 1e-5
            w, num = expected(dms, dm, q, qdir)
            nt |= compare(f"Grueneisen tensor ({route})", x, f, w, num, z)
    return dict(nontrivial=nt, labels=labels) if mode == "qpoints" else files(
        dict(case, what=mode), ph, args, kw, dm, dms, qs, qdir, labels)


def files(case, ph, args, kw, dm, dms, qs, qdir, labels):
    """Meshes, band paths and q-points through the function that writes files."""
    import h5py
    import yaml

    from phono3py.phonon3.gruneisen import run_gruneisen_parameters
    what = case["what"]
    mesh = case["mesh"]
    nat = len(ph.primitive)
    if what == "mesh" and np.prod(mesh) * nat * nat * len(ph.supercell) > 6000:
        raise Reject("too big")
    rot = ph.primitive_symmetry.pointgroup_operations if case["rotations"] else None
    paths = None
    if what == "band":
        qs = qs if len(qs) > 1 else np.concatenate([qs, qs + 0.25])
        paths = [np.array([a + (b - a) * t for t in np.linspace(0, 1, case["npath"])]) for a, b in zip(qs[:-1], qs[1:])]
    for n in os.listdir("."):
        if n.startswith("gruneisen"):
            os.remove(n)
    with contextlib.redirect_stdout(io.StringIO()):
        run_gruneisen_parameters(*args, paths, mesh if what == "mesh" else None, rot, qs if what == "qpoints" else None,
                                 output_filename=case["name"], **kw)
    base = "gruneisen" + ("." + case["name"] if case["name"] else "")
    nt = False
    if what == "mesh":
        with h5py.File(base + ".hdf5") as f:
            d = {k: f[k][()] for k in f}
        close(d["mesh"], mesh, "mesh in file")
        require(d["weight"].sum() == np.prod(mesh), "weights do not add up to the mesh")
        q = d["qpoint"] * np.array(mesh)
        close(q, np.rint(q), "mesh q-points", rtol=0, atol=1e-8)
        idx = np.rint(q).astype(int) % np.array(mesh)
        require(len(np.unique(idx, axis=0)) == len(idx), "repeated mesh point")
        if rot is None:
            require(len(idx) * 2 >= np.prod(mesh), "mesh points missing without symmetry")
        for q, x, f, t in zip(d["qpoint"], d["gruneisen_tensor"], d["frequency"], d["gruneisen"]):
            w, num = expected(dms, dm, q, qdir)
            nt |= compare("Grueneisen tensor on a mesh", x, f, w, num, np.abs(q).max() < 1e-5)
            close(t, np.trace(x, axis1=1, axis2=2) / 3, "Grueneisen parameter is a third of the trace", rtol=1e-12)
        # sums over the irreducible and all points agree
        full = np.array(list(itertools.product(*[range(m) for m in mesh]))) / np.array(mesh, float)
        s = np.zeros(3)
        for q in full:
            w, num = expected(dms, dm, q, qdir)
            s += [w.sum(), (w ** 2).sum(), np.trace(num, axis1=1, axis2=2).sum() if np.abs(q).max() > 1e-5 else 0]
        w2 = np.sign(d["frequency"]) * (d["frequency"] / phonons.THZ) ** 2
        t = [(w2.sum(1) * d["weight"]).sum(), ((w2 ** 2).sum(1) * d["weight"]).sum(),
             ((d["gruneisen"] * -6 * w2).sum(1) * d["weight"] * (np.abs(d["qpoint"]).max(1) > 1e-5)).sum()]
        # the mesh and the force constants of the supercell have to have the symmetry
        p = np.array([0.137, 0.251, 0.049])
        sym_fc = rot is None or np.abs(np.diff([np.linalg.eigvalsh(dm.dynmat([r @ p])[0]) for r in rot], axis=0)).max(
            initial=0) < 1e-9
        sym_mesh = rot is None or all(np.abs(x - np.rint(x)).max() < 1e-8 for x in
                                      [np.diag(mesh) @ np.array(r).T @ np.diag(1.0 / np.array(mesh)) for r in rot])
        if sym_mesh and sym_fc and not kw["nac_params"]:
            close(t, s, "sums over the mesh", rtol=2e-5, atol=1e-8)
        labels = labels + ["mesh", "ir" if rot is not None else "all"]
    else:
        with open(base + ".yaml") as f:
            d = yaml.safe_load(f)
        if what == "band":
            require(len(d["path"]) == len(paths), "number of paths")
            rows = []
            for p, x in zip(paths, d["path"]):
                require(x["nqpoint"] == len(p) == len(x["phonon"]), "points of a path")
                rec = np.linalg.inv(np.array(ph.primitive.cell))
                dist = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(p, axis=0) @ rec.T, axis=1))])
                close([y["distance"] for y in x["phonon"]], dist, "distances along the path", rtol=0, atol=2e-7)
                for i, (q, y) in enumerate(zip(p, x["phonon"])):
                    z = np.abs(q).max() < 1e-5
                    dq = None
                    if z:
                        dq = p[i] - p[i - 1] if i else p[1] - p[0]
                        if np.abs(dq).max() < 1e-10:
                            dq = None
                    rows.append((q, y, dq if z else None))
        else:
            require(d["nqpoint"] == len(qs) == len(d["phonon"]), "number of q-points")
            rows = [(q, y, qdir) for q, y in zip(qs, d["phonon"])]
        for q, y, dq in rows:
            close(y["q-position"], q, "q-position in file", rtol=0, atol=1e-7)
            t = np.array([b["gruneisen_tensor"] for b in y["band"]]).astype(float)
            g = np.array([b["gruneisen"] for b in y["band"]]).astype(float)
            ok = np.isfinite(g)
            close(g[ok], np.trace(t[ok], axis1=1, axis2=2) / 3, "Grueneisen parameter is a third of the trace",
                  rtol=1e-6, atol=2e-7)
            f = np.array([b["frequency"] for b in y["band"]])
            w, num = expected(dms, dm, q, dq)
            nt |= compare(f"Grueneisen tensor in a {what} file", t, f, w, num, np.abs(q).max() < 1e-5)
        labels = labels + [what]
    return dict(nontrivial=nt, labels=labels)
