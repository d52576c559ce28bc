"""Closest material: argmin over the library of the mean permittivity distance."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import torch
import matlib as M
import nidn
from nidn.materials.material_collection import MaterialCollection
from nidn.materials.find_closest_material import _find_closest_material


def h(S, Nx, Ny, L, F, m, cplx=True):
    names = M.NAMES[1:1 + m]
    tabs = {n: (([1.0], [1.0], [0.0]) if n not in names else M.table(S, n, 2)) for n in M.NAMES}
    M.use_tables(S, tabs)
    cfg = nidn.load_default_cfg()
    cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq = Nx, Ny, L, F
    cfg.target_frequencies = [0.5 + i for i in range(F)]
    c = MaterialCollection(cfg.target_frequencies, to_skip=[n for n in M.NAMES if n not in names])
    if cplx:
        vals = S.cplxs("e", (m, F), -20.0, 20.0)
        eps = S.cplxs("x", (Nx, Ny, L, F), -20.0, 20.0)
    else:   # lossless materials: the distance is piecewise linear
        vals = [[S.real("e_%d_%d" % (i, j), -20.0, 20.0) + 0j for j in range(F)] for i in range(m)]
        eps = [[[[S.real("x_%d_%d_%d_%d" % (a, b, l, f), -20.0, 20.0) + 0j for f in range(F)] for l in range(L)]
                for b in range(Ny)] for a in range(Nx)]
    c.epsilon_matrix = torch.tensor(vals)
    d, idx = _find_closest_material(torch.tensor(eps), cfg, c)
    S.prove_eq(S.shape(d) == (Nx, Ny, L), True, "one distance per voxel")
    S.prove_eq(S.shape(idx) == (Nx, Ny, L), True, "one material per voxel")
    S.observe("d", d)
    for a in range(Nx):
        for b in range(Ny):
            for l in range(L):
                D = []
                for k in range(m):
                    t = 0.0
                    for f in range(F):
                        t = t + S.abs(eps[a][b][l][f] - vals[k][f])
                    D.append(t / F)
                dv, iv = S.elems(d[a, b, l])[0], S.elems(idx[a, b, l])[0]
                S.prove(S.and_(iv >= 0, iv < m), "index names a material")
                for k in range(m):
                    S.prove_le(dv, D[k], "no material is closer than the reported distance", tol=1e-4)
                    S.prove(S.implies(iv == k, S.and_(dv - D[k] <= 1e-4, D[k] - dv <= 1e-4)),
                            "reported distance is that of the reported material")


def instances(tier):
    out = []
    cs = [(1, 1, 1, 1, 1), (1, 1, 1, 2, 3), (2, 1, 1, 1, 2), (1, 2, 2, 1, 3), (1, 1, 1, 3, 2)]
    if tier != "quick":
        cs += [(2, 2, 2, 2, 3), (1, 1, 2, 4, 5), (3, 2, 1, 2, 4), (1, 1, 1, 2, 9)]
    for c in cs:
        for cp in (True, False):
            out.append(dict(name="m%d_%s_%s" % (c[4], "c" if cp else "r", "x".join(map(str, c[:4]))), fn=h,
                            args=dict(Nx=c[0], Ny=c[1], L=c[2], F=c[3], m=c[4], cplx=cp), cost=c[0] * c[1] * c[2] * c[4],
                            bounds="grid %s, %d materials, permittivities in [-20,20]%s" % (c[:4], c[4], "^2" if cp else "")))
    return out
