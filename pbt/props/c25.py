"""C25: force set files carry displacements and forces faithfully."""
import contextlib
import copy
import io
import os
import sys

import numpy as np
from hypothesis import strategies as st

from pbt import model
from pbt.core import Reject, close, require
from pbt.props import c27

ints = st.integers
pick = st.sampled_from
KNOWN = "second-displacement-replaces-first"
CALC = {"vasp": (None, "--vasp", 1), "qe": ("qe", "--qe", 0), "lammps": ("lammps", None, 0)}


@st.composite
def strategy_(draw):
    d = dict(crystal=draw(model.crystals(sc="any", size=16, max_atoms=4)))
    d["seed"] = draw(ints(0, 10 ** 6))
    d["typ"] = draw(pick([1, 1, 2]))
    d["cut"] = draw(pick([None, 0.7, 0.4, 0.0, 1.0]))
    d["fc2"] = draw(ints(0, 2))
    d["fc2dim"] = draw(pick([[1, 1, 1], [1, 1, 2], [2, 1, 1], [2, 2, 1]]))
    d["typ2"] = draw(pick([None, 1, 2]))
    d["n"] = draw(ints(1, 4))
    d["calc"] = draw(pick(["vasp", "qe", "lammps", "vasp"]))
    d["named"] = draw(ints(0, 1))
    d["sub"] = draw(pick(["", "both", "own", "fc2"]))
    d["route"] = draw(pick(["cli", "list", "api", "cli", "same"]))
    d["sp"] = draw(ints(0, 2)) == 2 and 1 or 0
    d["wrong"] = draw(pick([None, None, "few3", "many3", "few2", "many2", "swap", "swap2", "short", "natom"]))
    d["size"] = draw(pick([0.1, 1e-3, 30.0, 1200.0]))
    d["back"] = draw(ints(0, 1))
    d["dist"] = draw(pick([0.03, 0.01, 0.2]))
    return d


def strategy(tier):
    return strategy_()


def run_cli(argv):
    """phono3py command in this process; (exit code, output)."""
    from phono3py.cui.phono3py_script import main
    old = sys.argv
    sys.argv = ["phono3py"] + argv
    out = io.StringIO()
    code = 0
    try:
        with contextlib.redirect_stdout(out):
            main()
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    finally:
        sys.argv = old
    return code, out.getvalue()


def vasprun(cell, forces, energy):
    v = lambda a: "".join("<v> %.14f %.14f %.14f </v>\n" % tuple(x) for x in a)
    return ('<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n<generator>\n<i name="version" type="string">5.4.4 </i>\n</generator>\n<calculation>\n<structure>\n<crystal>\n'
            f'<varray name="basis">\n{v(cell.cell)}</varray>\n<i name="volume"> {cell.volume:.8f} </i>\n</crystal>\n'
            f'<varray name="positions">\n{v(cell.scaled_positions % 1)}</varray>\n</structure>\n'
            f'<varray name="forces">\n{v(forces)}</varray>\n<energy>\n<i name="e_fr_energy"> {energy:.8f} </i>\n'
            f'<i name="e_wo_entrp"> {energy:.8f} </i>\n<i name="e_0_energy"> {energy:.8f} </i>\n</energy>\n'
            '</calculation>\n</modeling>\n')


def qe(cell, forces, energy):
    return ("     Forces acting on atoms (cartesian axes, Ry/au):\n\n" + "".join(
        "     atom %4d type  1   force = %20.14f %20.14f %20.14f\n" % ((i + 1,) + tuple(f))
        for i, f in enumerate(forces)) + "\n")


def lammps(cell, forces, energy):
    order = np.random.default_rng(len(forces)).permutation(len(forces))
    return (f"ITEM: TIMESTEP\n0\nITEM: NUMBER OF ATOMS\n{len(forces)}\nITEM: BOX BOUNDS pp pp pp\n0 1\n0 1\n0 1\n"
            "ITEM: ATOMS id type x y z fx fy fz \n" + "".join(
                "%d 1 0 0 0 %.14f %.14f %.14f\n" % ((i + 1,) + tuple(forces[i])) for i in order))


WRITER = {"vasp": vasprun, "qe": qe, "lammps": lammps}


def random_forces(rng, k, natom, size):
    f = rng.uniform(-size, size, (k, natom, 3))
    f -= f.mean(axis=1)[:, None]
    return f


def check(case):
    from phono3py import Phono3py
    with c27.scratch():
        return _check(case, Phono3py)


def _check(case, Phono3py):
    crystal = model.Crystal(case["crystal"])
    rng = np.random.default_rng(case["seed"])
    kind = case["calc"]
    name, flag, energies = CALC[kind]
    if name is None and case["named"]:
        name = "vasp"
    from phonopy.physical_units import get_physical_units
    u = get_physical_units()
    d2A, f2A = {"qe": (u.Bohr, u.Rydberg / u.Bohr)}.get(kind, (1.0, 1.0))
    cell = crystal.unitcell.copy()
    cell.cell = cell.cell / d2A
    kw = {}
    if case["fc2"]:
        kw["phonon_supercell_matrix"] = np.diag(case["fc2dim"])
    ph = Phono3py(cell, crystal.supercell_matrix, primitive_matrix=crystal.primitive_matrix, calculator=name, **kw)
    dist = case["dist"] / d2A
    cut = None
    if case["typ"] == 1:
        if case["cut"] is not None:
            lens = np.linalg.norm(ph.supercell.cell, axis=1)
            cut = float(max(0.3 / d2A, case["cut"] * lens.min() / 2))
        ph.generate_displacements(distance=dist, cutoff_pair_distance=cut)
    else:
        ph.generate_displacements(distance=dist, number_of_snapshots=case["n"], random_seed=case["seed"] % 1000)
    typ2 = None
    if case["fc2"]:
        typ2 = case["typ2"] or case["typ"]
        if typ2 == 1:
            ph.generate_fc2_displacements(distance=dist)
        else:
            ph.generate_fc2_displacements(distance=dist, number_of_snapshots=case["n"], random_seed=7)
    if case["n"] == 1 and (case["typ"] == 2 and len(ph.supercell) == 1 or
                           typ2 == 2 and len(ph.phonon_supercell) == 1):
        raise Reject("a file of one line")  # Not readable by phonopy
    labels = [f"type{case['typ']}", kind, case["route"]]
    cells3 = ph.supercells_with_displacements
    kept3 = [c for c in cells3 if c is not None]
    if len(cells3) > 400:
        raise Reject("many displacements")
    if len(kept3) < len(cells3):
        labels.append("cutoff")
    cells2 = ph.phonon_supercells_with_displacements if case["fc2"] else []
    base3, base2 = ph.supercell, ph.phonon_supercell
    F3 = random_forces(rng, len(kept3), len(base3), case["size"])
    F2 = random_forces(rng, len(cells2), len(base2), case["size"]) if cells2 else np.zeros((0, 0, 3))
    Z3 = random_forces(rng, 1, len(base3), case["size"] / 10)[0]
    Z2 = random_forces(rng, 1, len(base2), case["size"] / 10)[0] if cells2 else None
    E3 = rng.uniform(-50, 50, len(kept3))
    E2 = rng.uniform(-50, 50, len(cells2))
    # Residual forces: which are subtracted from which.
    sub3 = case["sub"] in ("both", "own") and case["route"] != "api"
    sub2 = None
    if cells2 and case["route"] != "api":
        if case["sub"] in ("fc2", "own"):
            sub2 = "own"
        elif case["sub"] == "both":
            if len(base2) != len(base3) or np.abs(base2.positions - base3.positions).max() > 1e-8:
                sub3 = False
            else:
                sub2 = "shared"
    want3 = F3 - (Z3 if sub3 else 0)
    want2 = F2 - ((Z3 if sub2 == "shared" else Z2) if sub2 else 0) if cells2 else F2
    if sub3:
        labels.append("residual")
    if sub2:
        labels.append("residual2")
    ph.save("phono3py_disp.yaml")

    wrong = case["wrong"]
    all3 = np.zeros((len(cells3), len(base3), 3))  # Also those of left-out supercells
    all3[[c is not None for c in cells3]] = F3
    if case["route"] == "api":
        if wrong in ("few3", "many3") and case["typ"] == 1:
            bad = {"few3": all3[:-1], "many3": np.concatenate([all3, all3[:1]])}[wrong]
            refused(lambda: setattr(ph, "forces", bad), wrong)
            return dict(nontrivial=True, labels=labels + ["refused", wrong])
        if wrong in ("few2", "many2") and cells2:
            bad = {"few2": F2[:-1], "many2": np.concatenate([F2, F2[:1]])}[wrong]
            refused(lambda: setattr(ph, "phonon_forces", bad), wrong)
            return dict(nontrivial=True, labels=labels + ["refused", wrong])
        from phono3py.file_IO import write_FORCES_FC2, write_FORCES_FC3
        if case["back"]:  # Forces of the data set
            ph.forces = all3
            write_FORCES_FC3(ph.dataset, filename="FORCES_FC3")
            if cells2:
                ph.phonon_forces = F2
                write_FORCES_FC2(ph.phonon_dataset, filename="FORCES_FC2")
        else:  # Forces given override those of the data set
            ph.forces = all3[::-1] * 2
            write_FORCES_FC3(ph.dataset, forces_fc3=F3, filename="f3")
            os.rename("f3", "FORCES_FC3")
            if cells2:
                ph.phonon_forces = F2[::-1] * 2
                write_FORCES_FC2(ph.phonon_dataset, forces_fc2=F2, filename="f2")
                os.rename("f2", "FORCES_FC2")
    else:
        w = WRITER[kind]
        names3 = []
        for i, (c, f) in enumerate(zip(kept3, F3)):
            names3.append(f"out3-{i + 1:05d}")
            open(names3[-1], "w").write(w(c, f, E3[i]))
        names2 = []
        for i, (c, f) in enumerate(zip(cells2, F2)):
            names2.append(f"out2-{i + 1:05d}")
            open(names2[-1], "w").write(w(c, f, E2[i]))
        open("zero3", "w").write(w(base3, Z3, 0.0))
        if cells2:
            open("zero2", "w").write(w(base2, Z2, 0.0))
        expect_fail = False
        partial = None
        if wrong == "few3" and len(names3) > 1:
            names3 = names3[:-1]
            if case["typ"] == 2:
                partial = len(names3)
            else:
                expect_fail = True
        elif wrong == "many3":
            names3 = names3 + names3[-1:]
            expect_fail = True
        elif wrong == "few2" and len(names2) > 1 and typ2 == 1:
            names2 = names2[:-1]
            expect_fail = True
        elif wrong == "many2" and cells2:
            names2 = names2 + names2[-1:]
            expect_fail = True
        elif wrong == "swap" and kind == "vasp" and case["typ"] == 2 and len(names3) > 1:
            names3 = names3[1:] + names3[:1]
            expect_fail = True
        elif wrong == "swap2" and kind == "vasp" and len(names2) > 1:
            names2 = names2[1:] + names2[:1]
            expect_fail = True
        elif wrong == "natom" and kind != "qe":
            i = case["seed"] % len(names3)
            open(names3[i], "w").write(w(kept3[i], F3[i][:-1], 0.0) if kind != "vasp" else
                                       vasprun(kept3[i], F3[i][:-1], 0.0))
            expect_fail = True
        elif wrong == "short" and kind == "vasp":
            i = case["seed"] % len(names3)
            text = open(names3[i]).read()
            open(names3[i], "w").write(text[:text.index('name="forces"') - 10])
            expect_fail = True
        argv = ["-q"] if case["n"] % 2 else []
        if flag and case["n"] % 3 == 0:
            argv += [flag]
        if case["route"] == "list":
            open("list", "w").write("\n".join(names3) + "\n")
            argv += ["--cf3-file", "list"]
        else:
            argv += ["--cf3"] + names3
        if cells2:
            argv += ["--cf2"] + names2
        if sub3:
            argv += ["--cfz", "zero3"]
        if sub2 == "own":
            argv += ["--cfz-fc2", "zero2"]
        if case["sp"]:
            argv += ["--sp"]
        if case["route"] == "same":  # One option at a time
            assert "--cf2" not in argv or argv.index("--cf2") > argv.index("--cf3")
        if expect_fail:
            try:
                code, out = run_cli(argv)
            except Exception as e:
                code, out = type(e).__name__, str(e)
            require(code not in (0, None), f"inconsistent files ({wrong}) were accepted", sig="accepted: " + wrong)
            require(not os.path.exists("phono3py_params.yaml"), "a file is written from inconsistent files",
                    sig="accepted: " + wrong)
            if wrong in ("few3", "many3", "swap", "short", "natom"):
                require(not os.path.exists("FORCES_FC3"), "a file is written from inconsistent files",
                        sig="accepted: " + wrong)
            require(not os.path.exists("FORCES_FC2"), "a file is written from inconsistent files",
                    sig="accepted: " + wrong)
            return dict(nontrivial=True, labels=labels + ["refused", wrong])
        code, out = run_cli(argv)
        require(code == 0, f"command failed with {code}: {out[-200:]}", sig="command failed")
        if partial is not None:
            want3, kept3, E3 = want3[:partial], kept3[:partial], E3[:partial]
            labels.append("partial")
    dev = compare(case, ph, kept3, cells2, want3, want2, d2A, f2A, energies and case["route"] != "api" and (E3, E2), labels)
    if case["back"] and cells2 and typ2 == 1 and not (case["sp"] and case["route"] != "api"):
        force_sets(case, ph, want2, len(base2))
        labels.append("FORCE_SETS")
    return dict(nontrivial=len(kept3) > 1 or len(cells2) > 1, labels=labels, deviations=dev)


def refused(fun, what):
    try:
        fun()
    except Exception:
        return
    require(False, f"inconsistent forces ({what}) were accepted", sig="accepted: " + what)


def compare(case, ph, kept3, cells2, want3, want2, d2A, f2A, energy, labels):
    import phono3py
    sp = case["sp"] and case["route"] != "api"
    file = "phono3py_params.yaml" if sp else "phono3py_disp.yaml"
    with contextlib.redirect_stdout(io.StringIO()):
        new = phono3py.load(file, produce_fc=False, log_level=0)
    tol = 1e-9 if case["typ"] == 1 and not sp else 2e-8
    close(new.supercell.cell, ph.supercell.cell * d2A, "supercell", rtol=1e-9, atol=1e-9)
    cells = [c for c in new.supercells_with_displacements if c is not None]
    require(len(cells) == len(kept3), f"{len(cells)} displacements instead of {len(kept3)}", sig="count")
    moved(cells, new.supercell, kept3, ph.supercell, d2A)
    kept = [c is not None for c in new.supercells_with_displacements]
    close(new.forces[kept], want3 * f2A, "forces", rtol=1e-9, atol=tol * max(1, f2A))
    require(np.abs(new.forces[~np.array(kept)]).sum() == 0, "forces of left-out supercells", sig="left-out pair")
    if energy and sp:
        close(new.supercell_energies[kept], energy[0], "energies", rtol=0, atol=2e-8)
    by_hand(case, new.dataset, want3 * f2A, tol * max(1, f2A))
    dev = arrays(new, cells, want3 * f2A, tol * max(1, f2A))
    if cells2:
        cells = new.phonon_supercells_with_displacements
        require(len(cells) == len(cells2), f"{len(cells)} displacements instead of {len(cells2)}", sig="count")
        moved(cells, new.phonon_supercell, cells2, ph.phonon_supercell, d2A)
        tol2 = 1e-9 if "first_atoms" in ph.phonon_dataset and not sp else 2e-8
        close(new.phonon_forces, want2 * f2A, "fc2 forces", rtol=1e-9, atol=tol2 * max(1, f2A))
        if energy and sp:
            close(new.phonon_supercell_energies, energy[1], "fc2 energies", rtol=0, atol=2e-8)
        if "first_atoms" in new.phonon_dataset:
            for d, f, c in zip(new.phonon_dataset["first_atoms"], want2, cells2):
                close(d["forces"], f * f2A, "fc2 forces of a data set entry", rtol=1e-9, atol=tol2 * max(1, f2A))
    return dev


def moved(cells, base, cells0, base0, d2A):
    """The same displaced supercells."""
    for i, (a, b) in enumerate(zip(cells, cells0)):
        x = lattice_free(a.positions - base.positions, base.cell)
        y = lattice_free(b.positions - base0.positions, base0.cell)
        close(x, y * d2A, f"displacements of supercell {i}", rtol=1e-8, atol=3e-8)


def lattice_free(u, cell):
    u = u @ np.linalg.inv(cell)
    return (u - np.rint(u)) @ cell


def arrays(new, cells, want, tol):
    """Arrays of displacements and forces that force constants calculators are given."""
    from phono3py.phonon3.dataset import get_displacements_and_forces_fc3
    u, f = get_displacements_and_forces_fc3(new.dataset)
    close(f, want, "array of forces", rtol=1e-9, atol=tol)
    require(len(u) == len(cells), "number of arrays of displacements", sig="count")
    entries = []
    if "first_atoms" in new.dataset:
        entries = [None] * len(new.dataset["first_atoms"])
        entries += [(d1, d2) for d1 in new.dataset["first_atoms"] for d2 in d1["second_atoms"] if d2.get("included", True)]
    dev = []
    inv = new.supercell.cell
    for i, (x, c) in enumerate(zip(u, cells)):
        got = lattice_free(np.array(x), inv)
        ref = lattice_free(c.positions - new.supercell.positions, inv)
        if entries and entries[i] and entries[i][0]["number"] == entries[i][1]["number"]:
            if np.abs(got - ref).max() > 1e-6:
                ref[entries[i][0]["number"]] -= entries[i][0]["displacement"]
                dev = [(KNOWN, f"the second displacement of the pair {i} replaces the first on atom {entries[i][0]['number']}")]
        close(got, ref, f"array of displacements {i}", rtol=1e-8, atol=3e-8)
    return dev


def by_hand(case, dataset, want, tol):
    """The data set entries themselves."""
    if "first_atoms" not in dataset:
        return
    k = 0
    for d1 in dataset["first_atoms"]:
        close(d1["forces"], want[k], "forces of a first displacement", rtol=1e-9, atol=tol)
        k += 1
    for d1 in dataset["first_atoms"]:
        for d2 in d1["second_atoms"]:
            if d2.get("included", True):
                close(d2["forces"], want[k], "forces of a pair", rtol=1e-9, atol=tol)
                k += 1
            elif "forces" in d2:
                require(np.abs(d2["forces"]).max() == 0, "a left-out pair has forces", sig="left-out pair")
    require(k == len(want), "number of entries", sig="count")


def force_sets(case, ph, want, natom):
    """FORCES_FC2 -> FORCE_SETS -> FORCES_FC2."""
    from phonopy.file_IO import parse_FORCE_SETS
    code, out = run_cli(["--cfs", "--dim-fc2", *[str(int(x)) for x in np.array(ph.phonon_supercell_matrix).ravel()]])
    require(code == 0, "command failed: " + out[-200:], sig="command failed")
    d = parse_FORCE_SETS(filename="FORCE_SETS")
    require(d["natom"] == natom and len(d["first_atoms"]) == len(want), "FORCE_SETS", sig="FORCE_SETS")
    for a, b, f in zip(d["first_atoms"], ph.phonon_dataset["first_atoms"], want):
        require(a["number"] == b["number"], "atom of FORCE_SETS", sig="FORCE_SETS")
        close(a["displacement"], b["displacement"], "displacement of FORCE_SETS", rtol=0, atol=1e-12)
        close(a["forces"], f, "forces of FORCE_SETS", rtol=1e-9, atol=2e-10)
    text = open("FORCES_FC2").read()
    os.remove("FORCES_FC2")
    code, out = run_cli(["--fs2f2"])
    require(code == 0, "command failed: " + out[-200:], sig="command failed")
    num = lambda t: np.array([[float(x) for x in l.split()] for l in t.split("\n") if l.strip() and l[0] != "#"])
    close(num(open("FORCES_FC2").read()), num(text), "FORCES_FC2 from FORCE_SETS", rtol=0, atol=2e-10)
