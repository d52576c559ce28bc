"""Material library: tabulated refractive indices -> permittivities."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import matlib as M
from nidn.materials.material_collection import MaterialCollection
from nidn.trcwa.load_material_data import _load_material_data


def freqs(S, F):
    return [S.real("f%d" % i, 0.02, 10.0) for i in range(F)]


def h_collection(S, keep, rows, F, offset=0):
    names = (M.NAMES + M.NAMES)[offset:offset + keep]
    tabs = {n: M.table(S, n, rows) for n in names}
    M.use_tables(S, tabs)
    f = freqs(S, F)
    c = MaterialCollection(f, to_skip=[n for n in M.NAMES if n not in names])
    S.prove_eq(sorted(c.material_names) == sorted(names), True, "exactly the materials that are not skipped are available")
    S.prove_eq(c.N_materials, keep, "number of materials")
    S.prove_eq(S.shape(c.epsilon_matrix) == (keep, F), True, "one permittivity per material and frequency")
    for m, name in enumerate(c.material_names):
        e = c[name]
        S.prove_eq(S.shape(e) == (F,), True, "one permittivity per frequency")
        ev = S.elems(e)
        row = S.elems(c.epsilon_matrix[m])
        S.prove_close(ev, row, "matrix row belongs to the name at its position", tol=1e-9)
        for i in range(F):
            S.prove(M.is_nearest_row(S, ev[i], tabs[name], f[i]),
                    "permittivity is (n+ik)^2 of the tabulated entry nearest in wavelength")
        S.observe(name, ev)
    bad = S.choose("bad", ["unobtainium", "", names[0].upper()] + [n for n in M.NAMES if n not in names][:1])
    e = S.raises(lambda: c[bad], KeyError)
    S.prove(e is not None, "a material that is not in the collection is refused")


def h_all(S):
    tabs = {n: M.table(S, n, 1) for n in M.NAMES}
    M.use_tables(S, tabs)
    f = freqs(S, 1)
    c = MaterialCollection(f)
    S.prove_eq(sorted(c.material_names) == M.NAMES, True, "every material of the data folder is available")
    S.prove_eq(c.N_materials, len(M.NAMES), "number of materials")
    S.prove_eq(S.shape(c.epsilon_matrix) == (len(M.NAMES), 1), True, "matrix shape")
    for name in M.NAMES:
        S.prove(M.is_nearest_row(S, S.elems(c[name])[0], tabs[name], f[0]), "permittivity of the named material")
    # a second collection does not see or disturb the first
    sk = S.intval("skip", 0, len(M.NAMES) - 1)
    d = MaterialCollection(f, to_skip=[M.NAMES[sk]])
    S.prove_eq(sorted(d.material_names) == [n for n in M.NAMES if n != M.NAMES[sk]], True, "independent collections")
    S.prove_eq(sorted(c.material_names) == M.NAMES, True, "earlier collection unchanged")
    for name in d.material_names:
        S.prove_close(S.elems(d[name]), S.elems(c[name]), "same permittivity in both", tol=1e-6)


def h_real(S, name, lo, hi):
    """shipped data, symbolic target frequency"""
    f = S.real("f", lo, hi)
    rows = []
    with open(os.path.join(M.FOLDER, name + ".csv")) as fh:
        head = fh.readline().split()
        for line in fh:
            p = line.split()
            if len(p) >= 3:
                rows.append([float(x) for x in p[:3]])
    cols = {h: i for i, h in enumerate(head)}
    t = tuple([r[cols[h]] for r in rows] for h in ("Wavelength", "n", "k"))
    M.use_tables(S, {n: t for n in M.NAMES})
    c = MaterialCollection([f], to_skip=[n for n in M.NAMES if n != name])
    v = S.elems(c[name])[0]
    S.prove(M.is_nearest_row(S, v, t, f), "permittivity of the nearest shipped entry")
    S.observe("v", [v])


def h_empty(S):
    e = S.raises(lambda: MaterialCollection([]), ValueError)
    S.prove(e is not None, "an empty list of frequencies is refused")


def h_load(S, rows, F):
    t = M.table(S, "m", rows)
    M.use_tables(S, {"m": t})
    f = freqs(S, F)
    v = _load_material_data("/x/m.csv", f)
    ev = S.elems(v)
    S.prove_eq(len(ev), F, "one permittivity per frequency")
    for i in range(F):
        S.prove(M.is_nearest_row(S, ev[i], t, f[i]), "permittivity is (n+ik)^2 of the nearest entry")
    S.observe("v", ev)


def h_names(S):
    """names that contain one another are different materials"""
    names = ["ab", "a", "abc", "b_a"]
    tabs = {n: M.table(S, n, 1) for n in names}
    M.use_tables(S, tabs)
    S.patch(M.mc, "glob", lambda *a, **k: ["/x/data/%s.csv" % n for n in names])
    f = freqs(S, 1)
    skip = S.choose("skip", [["a"], ["ab"], ["abc", "a"], ("b_a",), [], None, ["A"]])
    c = MaterialCollection(f, to_skip=skip)
    want = [n for n in names if n not in (skip or [])]
    S.prove_eq(sorted(c.material_names) == sorted(want), True, "exactly the materials that are not skipped are available")
    for n in want:
        S.prove(M.is_nearest_row(S, S.elems(c[n])[0], tabs[n], f[0]), "permittivity of the named material")


def instances(tier):
    out = [dict(name="all", fn=h_all, bounds="all shipped material names, 1-row symbolic tables, 1 frequency, any one skipped", cost=5),
           dict(name="empty", fn=h_empty, bounds="-")]
    if hasattr(M.mc, "glob"):
        out.append(dict(name="names", fn=h_names, bounds="four names that contain one another, seven lists of names to skip"))
    b = "%d materials, %d-row tables with symbolic wavelength (0.05..100), n, k (0..10); %d symbolic frequencies"
    cs = [(1, 1, 1, 0), (1, 4, 1, 2), (2, 3, 2, 4), (3, 2, 3, 1), (2, 2, 1, 8)]
    cs += [(1, 7, 2, 3), (4, 4, 3, 5), (10, 2, 2, 0), (1, 1, 12, 6)]
    if tier != "quick":
        cs += [(1, 8, 4, 3), (4, 6, 4, 5), (2, 8, 6, 0), (10, 4, 3, 0)]
    for k, r, F, o in cs:
        out.append(dict(name="coll_%d_%d_%d_%d" % (k, r, F, o), fn=h_collection, args=dict(keep=k, rows=r, F=F, offset=o),
                        bounds=b % (k, r, F), cost=k * r * F))
    for r, F in ((1, 1), (3, 2), (7, 1)) if tier == "quick" else ((1, 1), (3, 2), (5, 3), (8, 1)):
        out.append(dict(name="load_%d_%d" % (r, F), fn=h_load, args=dict(rows=r, F=F), bounds=b % (1, r, F)))
    if tier != "quick":
        for n in M.NAMES:
            out.append(dict(name="shipped_" + n, fn=h_real, args=dict(name=n, lo=0.2, hi=2.0),
                            bounds="shipped table of %s, symbolic frequency in [0.2,2]" % n, cost=50,
                            opts=dict(time_limit=1500, query_timeout=600)))
    return out
