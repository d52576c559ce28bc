"""shared by the material checks: symbolic refractive-index tables behind
pandas.read_csv (the file names are those of the real data folder)"""
import os
import pandas
from nidn.materials import material_collection as mc

FOLDER = os.path.join(os.path.dirname(os.path.abspath(mc.__file__)), "data")
NAMES = sorted(f[:-4] for f in os.listdir(FOLDER) if f.endswith(".csv"))


def base(path):
    return os.path.basename(str(path).replace("\\", "/")).split(".csv")[0]


def use_tables(S, tables):
    """pandas.read_csv delivers tables[name] (lists wl, n, k)"""
    def read_csv(path, *a, **k):
        t = tables[base(path)]
        return S.frame({"Wavelength": list(t[0]), "n": list(t[1]), "k": list(t[2])})
    S.patch(pandas, "read_csv", read_csv)
    S.patch(pandas, "read_table", read_csv)


def table(S, name, rows):
    wl = [S.real("%s_wl%d" % (name, r), 0.05, 100.0) for r in range(rows)]
    n = [S.real("%s_n%d" % (name, r), 0.0, 10.0) for r in range(rows)]
    k = [S.real("%s_k%d" % (name, r), 0.0, 10.0) for r in range(rows)]
    return wl, n, k


def is_nearest_row(S, val, t, freq, tol=1e-6):
    """val is (n+ik)^2 of a row whose tabulated wavelength is nearest to 1/freq"""
    wl, n, k = t
    d = [S.abs(w - 1.0 / freq) for w in wl]
    alts = []
    for r in range(len(wl)):
        near = [d[r] <= d[q] + 1e-9 for q in range(len(wl)) if q != r]
        re = n[r] * n[r] - k[r] * k[r]
        im = 2 * n[r] * k[r]
        e1, e2 = S.re(val) - re, S.im(val) - im
        t = 4e-5 if not S.symbolic else 1e-6
        alts.append(S.and_(e1 <= t, -e1 <= t, e2 <= t, -e2 <= t, *near))
    return S.or_(*alts)
