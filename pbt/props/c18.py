"""C18: distributed and resumed direct solutions give the result of one run."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require, same
from pbt.props import c11, c14, c16, c17

ints = st.integers
RESULTS = {None: ("kappa", "mode_kappa", "kappa_RTA", "mode_kappa_RTA"),
           "wigner": ("kappa_P_exact", "mode_kappa_P_exact", "kappa_P_RTA", "mode_kappa_P_RTA", "kappa_C", "mode_kappa_C")}


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(neg=True, sc="sym", size=8, max_atoms=3, wrap=True)))
    d.update(draw(model.grids(d["crystal"], 2, 4)))
    d["temps"] = draw(st.lists(st.sampled_from([300, 1000, 100, 0, 30, 301.5, 3000]), min_size=1, max_size=3))
    d["mode"] = draw(st.sampled_from(["jobs"] * 7 + ["file", "file", "each", "pp", "missing", "missing", "temps"]))
    d["sig"] = draw(st.lists(st.sampled_from([0.3, 0.1, None, 1.0, 0.123456]), min_size=1, max_size=2, unique=True))
    d["scut"] = draw(st.sampled_from([None, None, 4.0]))
    d["cut"] = draw(st.sampled_from([None, None, None, 0.01, 0.5, 2.0]))
    d["msym"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["sym"] = draw(ints(0, 4)) != 4 and 1 or 0
    d["star"] = draw(ints(0, 3)) != 3 and 1 or 0
    d["nac"] = draw(ints(0, 4)) == 4 and 1 or 0
    d["iso"] = draw(st.sampled_from([0, 1, 2]))
    d["mfp"] = draw(st.sampled_from([None, None, 1.0, 0.01]))
    d["compact"] = draw(ints(0, 1))
    d["r0"] = draw(ints(0, 1))
    d["ct"] = draw(st.sampled_from([None, None, None, "wigner"]))
    d["red"] = draw(ints(0, 1))
    d["full"] = draw(ints(0, 3)) == 3 and 1 or 0
    d["jobs"] = draw(st.lists(ints(0, 3), min_size=1, max_size=12))
    d["order"] = draw(ints(0, 10 ** 6))
    d["bands"] = draw(st.lists(ints(0, 9), min_size=1, max_size=8))
    d["sigsep"] = draw(ints(0, 1))
    d["fresh"] = draw(ints(0, 1))
    d["rsig"] = draw(ints(0, 1))
    d["name"] = draw(st.sampled_from([None, None, "a"]))
    d["solver"] = draw(st.sampled_from([0, 4]))
    d["pick"] = draw(ints(0, 1000))
    d["tsel"] = draw(st.lists(ints(0, 2), max_size=3))
    return d


def strategy(tier):
    return strategy_()


def select(case):
    """Temperature indices to be read, or all."""
    n = len(case["temps"])
    s = sorted({i % n for i in case["tsel"]})
    return s or None


def results(br, case):
    return {n: np.real(getattr(br, n)) for n in ("gamma",) + RESULTS[case["ct"]]}


def compare(got, ref, case, what, order, tsel, gap, rtol=1e-6):
    require(got is not None and got is not False, f"{what}: no result", sig="no result")
    same(got.grid_points, ref.grid_points, f"{what}: grid points")
    t = range(len(case["temps"])) if tsel is None else tsel
    same(got.temperatures, np.array(case["temps"], dtype=float)[list(t)], f"{what}: temperatures", sig="temperatures")
    r = results(ref, case)
    for n, e in r.items():
        e = e[order][:, list(t)]
        g = np.real(getattr(got, n))
        if n == "gamma" and case["red"]:
            # only values of the grid points that were run are stored, unless expanded
            pass
        scale = np.abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() and e.size else 0
        if "exact" in n or n in ("kappa", "mode_kappa"):
            for j in range(e.shape[0]):
                for k in range(e.shape[1]):
                    if gap[order[j]][list(t)[k]]:
                        close(g[j, k], e[j, k], f"{what}: {n}", rtol=rtol, atol=1e-9 * np.abs(e[j, k]).max() + 1e-20,
                              sig=f"{what}: {n}")
            same(g.shape, e.shape, f"{what}: shape of {n}")
            continue
        close(g, e, f"{what}: {n}", rtol=rtol, atol=1e-9 * scale + 1e-25, sig=f"{what}: {n}")
    if case["iso"]:
        close(got.gamma_isotope, np.array(ref.gamma_isotope)[order], f"{what}: gamma_isotope", rtol=rtol, atol=1e-20)


def name_of(bz, case, s, gp=None, band=None):
    return "collision" + c16.suffix(bz, s, case["scut"], gp, band, case["name"])


def check(case):
    case = dict(case)
    mode = case["mode"]
    if case["kind"] == "grg":
        case["sym"] = 1
    if mode == "pp":
        case["sig"], case["scut"] = case["sig"][:1], None
    if case["full"]:
        case["scut"] = None
    if case["ct"] == "wigner" and case["red"]:
        case["ct"] = None
    c16.no_files("*.hdf5")
    rn = c16.Runner(case)
    ph = rn.obj(case["sig"])
    bz = ph.phph_interaction.bz_grid
    nb = 3 * len(ph.primitive)
    ng = len(bz.grg2bzg)
    if ng > 40 or ng * ng * nb ** 3 > 3e5 or ng * nb > 300 or ng < 2:
        raise Reject("too big")
    if case["red"] and ng * nb > 150 or not (case["star"] and case["msym"] and case["sym"]) and ng * nb * 3 > 400:
        raise Reject("too big")
    kw = dict(is_LBTE=True, is_reducible_collision_matrix=bool(case["red"]), is_full_pp=bool(case["full"]),
              pinv_solver=case["solver"])
    probe, ph = rn.run(case["sig"], **kw)
    if probe is None:
        require(False, "no result of the single run")
    # a cutoff of eigenvalues in a gap
    eig = np.abs(np.array(probe.collision_eigenvalues))
    top = eig.max()
    pinv = 1e-8
    if top > 1e-8:
        x = eig[eig > 0].ravel()
        pinv = c17.gap_of(x, 0, 1e-7 * top)
    kw["pinv_cutoff"] = pinv
    gap = [[np.abs(eig[j, k] - pinv).min() > 0.05 * pinv and eig[j, k].max() > 1e-9 for k in range(len(case["temps"]))]
           for j in range(len(case["sig"]))]
    rn.keep.clear()
    ref, ph = rn.run(case["sig"], write_LBTE_solution=True, write_kappa=True, output_filename=case["name"], **kw)
    rn.keep.clear()
    f = np.array(ph.phph_interaction.get_phonons()[0])
    gps = [int(x) for x in ref.grid_points]
    sets = [c11.degenerate(f[g]) for g in gps]
    gr = np.array(bz.bzg2grg)
    labels = [mode, case["ct"] or "standard", "reducible" if case["red"] else "irreducible", case["kind"]]
    if not any(any(g) for g in gap):
        labels.append("no-gap")
    whole = [c16.read(name_of(bz, case, s)) for s in case["sig"]]
    kwhole = [c16.read("kappa" + c16.suffix(bz, s, case["scut"], name=case["name"])) for s in case["sig"]]
    for j in range(len(case["sig"])):
        require(np.isfinite(whole[j]["collision_matrix"]).all() and np.isfinite(whole[j]["gamma"]).all(), "finite matrix")
    scale = max(np.abs(w["collision_matrix"]).max() for w in whole)
    if case["full"]:
        r, _ = rn.run(case["sig"], is_full_pp=True)
        e = np.array(r.averaged_pp_interaction)
        rn.keep.clear()
        g = np.array(ref.averaged_pp_interaction)
        close(g[gr[gps]] if case["red"] else g, e, "averaged interaction of direct solution and RTA", rtol=1e-7,
              atol=1e-12 * np.abs(e).max() + 1e-40)
    done = dict(nontrivial=bool(scale > 0 and len(gps) > 1), labels=labels)
    tsel = select(case)
    rd = dict(read_collision="all" if tsel is None else tsel, input_filename=case["name"])
    so = list(range(len(case["sig"])))[::-1 if case["rsig"] else 1]
    rsigs = [case["sig"][j] for j in so]
    if tsel is not None:
        labels.append("temperatures")
    if mode == "file":
        got, _ = rn.run(rsigs, **rd, **kw)
        compare(got, ref, case, "whole matrix read", so, tsel, gap)
        if case["pick"] % 2:
            # other scattering mechanisms are added to the stored matrix
            other = dict(case, iso=case["pick"] // 2 % 3, mfp=[None, 0.5, 30.0][case["pick"] // 6 % 3])
            r2 = c16.Runner(other)
            exp, _ = r2.run(case["sig"], **kw)
            r2.keep.clear()
            got, _ = r2.run(rsigs, **rd, **kw)
            e2 = np.abs(np.array(exp.collision_eigenvalues))
            gap = [[np.abs(e2[j, k] - pinv).min() > 0.05 * pinv and e2[j, k].max() > 1e-9 for k in range(len(case["temps"]))]
                   for j in range(len(case["sig"]))]
            compare(got, exp, other, "whole matrix read with other mechanisms", so, tsel, gap)
        return done
    c16.no_files("*.hdf5")
    if mode == "pp":
        rng = np.random.default_rng(case["order"])
        order = [gps[i] for i in rng.permutation(len(gps))]
        rn.run(case["sig"], grid_points=order, write_pp=True, output_filename=case["name"], **kw)
        if case["pick"] % 3 == 2:
            files = sorted(glob.glob("pp*.hdf5"))
            os.remove(files[case["order"] % len(files)])
            refuse(rn, case, "without all interaction strengths", read_pp=True, input_filename=case["name"], **kw)
            return done
        got, _ = rn.run(case["sig"], read_pp=True, input_filename=case["name"], **kw)
        compare(got, ref, case, "read interaction strengths", [0], None, gap)
        return done
    written = []
    if mode == "each":
        # pieces are also written by the run of all grid points
        rn.run(case["sig"], write_collision=True, output_filename=case["name"], **kw)
        written = [(s, g, None) for s in case["sig"] for g in gps]
    else:
        rng = np.random.default_rng(case["order"])
        order = [gps[i] for i in rng.permutation(len(gps))]
        nj = max(case["jobs"]) + 1
        jobs = [[] for _ in range(nj)]
        for i, g in enumerate(order):
            jobs[case["jobs"][i % len(case["jobs"])]].append(g)
        tasks = []
        for jb in jobs:
            plain = []
            for g in jb:
                k = case["bands"][g % len(case["bands"])]
                ss = sets[gps.index(g)]
                if k < 6 or len(ss) < 2:
                    plain.append(g)
                    continue
                n = 2 if k < 8 else len(ss)
                groups = [[] for _ in range(n)]
                for i, s in enumerate(ss):
                    groups[i % n] += [int(x) for x in s]
                tasks += [([g], gr_[::-1] if k % 2 else gr_) for gr_ in groups]
            if plain:
                tasks.append((plain, None))
        tasks = [tasks[i] for i in rng.permutation(len(tasks))]
        if any(t[1] for t in tasks):
            labels.append("bands")
        sigs = [[s] for s in case["sig"]] if case["sigsep"] else [case["sig"]]
        for g, b in tasks:
            for sg in sigs:
                r, _ = rn.run(sg, b, grid_points=g, write_collision=True, output_filename=case["name"], **kw)
                same(r.grid_points, g, "grid points of a job")
                written += [(s, x, bi) for s in sg for x in g for bi in ([None] if b is None else b)]
    files = sorted(glob.glob("collision*.hdf5"))
    same(files, sorted({name_of(bz, case, *w) for w in written}), "names of written files", sig="file name")
    for s, g, b in written:
        check_file(c16.read(name_of(bz, case, s, g, b)), whole[case["sig"].index(s)], ref, case, case["sig"].index(s), gps.index(g),
                   int(gr[g]), g, b, name_of(bz, case, s, g, b))
    if mode == "missing":
        v = name_of(bz, case, *written[case["pick"] % len(written)])
        os.remove(v)
        refuse(rn, case, f"without {v}", **rd, **kw)
        return done
    if mode == "temps":
        # one piece is of another calculation
        s, g, b = written[case["pick"] % len(written)]
        if len({(a, x) for a, x, _ in written}) < 2 and (b is None or sum(1 for w in written if w[:2] == (s, g)) < 2):
            raise Reject("one piece")
        rn.keep.clear()
        rn.run([s], None if b is None else [b], grid_points=[g], write_collision=True, output_filename=case["name"],
               temperatures=[t + 50.0 for t in case["temps"]], **kw)
        refuse(rn, case, "of pieces at different temperatures", **dict(rd, read_collision="all"), **kw)
        return done
    got, _ = rn.run(rsigs, write_LBTE_solution=True, write_kappa=True, output_filename=case["name"], **rd, **kw)
    compare(got, ref, case, "distributed run", so, tsel, gap)
    t = list(range(len(case["temps"]))) if tsel is None else tsel
    for j, s in enumerate(case["sig"]):
        d = c16.read(name_of(bz, case, s))
        for n in ("collision_matrix", "gamma"):
            e = whole[j][n][t]
            close(d[n], e, f"{n} in the file of the collected run", rtol=1e-7, atol=1e-9 * np.abs(e).max() + 1e-25,
                  sig=f"collected {n}")
        same(d["temperature"], whole[j]["temperature"][t], "temperatures of the collected run")
        d = c16.read("kappa" + c16.suffix(bz, s, case["scut"], name=case["name"]))
        for n, e in kwhole[j].items():
            if n == "version" or n.startswith(("mode_kappa", "mean_free", "f_vec")):
                continue
            require(n in d, f"{n} is missing in the file of the collected run: {sorted(d)}", sig=f"collected {n}")
            if n in ("kappa_RTA", "kappa_P_RTA", "kappa_C", "gamma", "temperature", "frequency", "qpoint", "weight",
                     "gamma_isotope", "group_velocity", "gv_by_gv", "heat_capacity"):
                e = np.real(e)
                if n in ("kappa_RTA", "kappa_P_RTA", "kappa_C", "gamma", "temperature", "heat_capacity"):
                    e = e[t]
                close(np.real(d[n]), e, f"{n} in the file of the collected run", rtol=1e-6,
                      atol=1e-9 * (np.abs(e[np.isfinite(e)]).max() if np.isfinite(e).any() else 0) + 1e-25,
                      sig=f"collected {n}")
    if case["pick"] % 2:
        c16.no_files("collision*-g*.hdf5")
        case2 = dict(case, temps=[case["temps"][i] for i in t])
        got2, _ = rn.run(rsigs, read_collision="all", input_filename=case["name"], **kw)
        same(got2.temperatures, got.temperatures, "temperatures of the second collection")
        for n in RESULTS[case2["ct"]][:1]:
            a, b = np.real(getattr(got2, n)), np.real(getattr(got, n))
            close(a, b, f"{n} of the second collection", rtol=1e-7, atol=1e-20, sig="second collection")
    return done


def refuse(rn, case, what, **kw):
    rn.keep.clear()
    ph = rn.obj(case["sig"])
    try:
        r = c14.run(ph, case, conductivity_type=case["ct"], **kw)
    except Exception as e:
        if isinstance(e, (AttributeError, NameError)):
            raise
        return
    require(r is None or r is False, f"a thermal conductivity is returned {what}", sig="incomplete data accepted")


def check_file(d, whole, ref, case, j, i, row, g, b, name):
    """One piece against the whole matrix."""
    k = row if case["red"] else i
    sl = slice(None) if b is None else b
    exp = dict(temperature=np.array(case["temps"], dtype=float), gamma=whole["gamma"][:, k, sl],
               collision_matrix=whole["collision_matrix"][:, k, sl], grid_point=g)
    if case["iso"]:
        exp["gamma_isotope"] = whole["gamma_isotope"][k, sl]
    if case["sig"][j] is not None:
        exp["sigma"] = case["sig"][j]
        if case["scut"] is not None:
            exp["sigma_cutoff_width"] = case["scut"]
    if b is not None:
        exp["band_index"] = b + 1
    for n, e in exp.items():
        require(n in d, f"{n} is not in {name}: {sorted(d)}", sig=f"file {n}")
        e = np.asarray(e, dtype=float)
        atol = 1e-9 * (np.abs(e).max() if e.size else 0) + 1e-25
        if n == "collision_matrix":
            atol += 1e-12 * np.abs(whole[n]).max()
        close(np.asarray(d[n], dtype=float), e, f"{n} of {name}", rtol=1e-7, atol=atol, sig=f"file {n}")
