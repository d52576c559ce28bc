"""Run configuration validation: accepts exactly the admissible configurations."""
import nidn
from nidn.utils.validate_config import _validate_config

INT_POS = ["n_neurons", "Nx", "Ny", "N_layers", "N_freq", "iterations", "eps_oversampling", "TRCWA_NG", "FDTD_niter",
           "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]
FLOAT_POS = ["L", "learning_rate", "noise_scale", "reg_loss_weight", "FDTD_free_space_distance", "FDTD_pml_thickness"]
REQUIRED = ["name", "seed", "eps_oversampling", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps",
            "Nx", "Ny", "N_layers", "physical_wavelength_range", "N_freq", "model_type", "encoding_dim", "siren_omega",
            "n_neurons", "hidden_layers", "learning_rate", "iterations", "L", "absorption_loss", "type",
            "use_regularization_loss", "reg_loss_weight", "add_noise", "noise_scale", "solver", "PER_LAYER_THICKNESS",
            "TRCWA_L_grid", "TRCWA_NG", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS",
            "FDTD_min_gridpoints_per_unit_magnitude", "FDTD_source_type", "FDTD_pulse_type", "FDTD_pml_thickness",
            "FDTD_source_position", "FDTD_free_space_distance", "FDTD_niter", "FDTD_gridpoints_from_material_to_detector",
            "target_reflectance_spectrum", "target_transmittance_spectrum", "freq_distribution", "use_gpu", "avoid_zero_eps"]
WRONG = {}
for _k in ["Nx", "Ny", "N_layers", "N_freq", "encoding_dim", "n_neurons", "eps_oversampling", "seed", "TRCWA_NG", "FDTD_niter",
           "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]:
    WRONG[_k] = ["1", 2.0, None, [1], "symreal"]
for _k in ["L", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "siren_omega", "noise_scale", "reg_loss_weight",
           "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "FDTD_free_space_distance", "FDTD_pml_thickness"]:
    WRONG[_k] = ["1.0", None, [1.0], 1, "symint"]
for _k in ["use_regularization_loss", "add_noise", "use_gpu", "avoid_zero_eps"]:
    WRONG[_k] = ["true", None, 1, 0.0, "symint"]
for _k in ["model_type", "type", "name", "freq_distribution", "solver", "FDTD_source_type", "FDTD_pulse_type"]:
    WRONG[_k] = [1, None, ["x"], True, "symint"]
for _k in ["PER_LAYER_THICKNESS", "TRCWA_L_grid", "FDTD_source_position", "target_reflectance_spectrum",
           "target_transmittance_spectrum", "physical_wavelength_range"]:
    WRONG[_k] = [1.0, None, "x", 3, "symreal"]


def _scaling(S, wl0, minpts):
    return S.max(1e-6 / (wl0 * 0.1), minpts)


def _det_ok(S, cfg):
    k = S.floor(_scaling(S, cfg.physical_wavelength_range[0], cfg.FDTD_min_gridpoints_per_unit_magnitude) * cfg.FDTD_free_space_distance)
    return k >= cfg.FDTD_gridpoints_from_material_to_detector


def _accepts(S, cfg):
    return S.raises(lambda: _validate_config(cfg), RuntimeError) is None


def h_default(S):
    S.prove(_accepts(S, nidn.load_default_cfg()), "the shipped default configuration is accepted")


def h_ranges(S, keys, solver):
    """scalars symbolic at once: accepted iff every documented range holds"""
    cfg = nidn.load_default_cfg()
    cfg.solver = solver
    conds = []
    for k in keys:
        if k in INT_POS:
            cfg[k] = S.int(k, -3, 60)
        else:
            cfg[k] = S.real(k, -5.0, 50.0)
        conds.append(cfg[k] > 0)
    if "Nx" in keys or "eps_oversampling" in keys:
        S.assume(cfg.eps_oversampling != 0)
        conds.append(cfg.Nx % cfg.eps_oversampling == 0)
        conds.append(cfg.Ny % cfg.eps_oversampling == 0)
    conds.append(_det_ok(S, cfg))
    if "N_layers" in keys:
        conds.append(True)   # a single thickness fits any number of layers
    ok = _accepts(S, cfg)
    S.prove(S.iff(ok, S.and_(*conds)), "accepted exactly when all numeric ranges hold")


def h_eps(S):
    cfg = nidn.load_default_cfg()
    for k in ("real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps"):
        cfg[k] = S.real(k, -1000.0, 1000.0)
    ok = _accepts(S, cfg)
    S.prove(S.iff(ok, S.and_(cfg.real_min_eps <= cfg.real_max_eps, cfg.imag_min_eps <= cfg.imag_max_eps)),
            "permittivity limits accepted exactly when ordered")


def h_wl(S):
    cfg = nidn.load_default_cfg()
    a, b = S.real("wl0_um", 0.05, 100.0), S.real("wl1_um", 0.05, 100.0)
    cfg.physical_wavelength_range = [a * 1e-6, b * 1e-6]
    cfg.FDTD_free_space_distance = S.real("free", 0.01, 10.0)
    cfg.FDTD_min_gridpoints_per_unit_magnitude = S.int("minpts", 1, 50)
    cfg.FDTD_gridpoints_from_material_to_detector = S.int("det", 1, 40)
    det = _det_ok(S, cfg)
    ok = _accepts(S, cfg)
    S.prove(S.iff(ok, S.and_(cfg.physical_wavelength_range[0] < cfg.physical_wavelength_range[1], det)),
            "wavelength range and detector distance accepted exactly when consistent")


def h_lists(S, key, n, zero_ok):
    cfg = nidn.load_default_cfg()
    vals = S.reals(key, n, -2.0, 2.0)
    cfg[key] = list(vals)
    if key == "PER_LAYER_THICKNESS":
        cfg.N_layers = S.int("N_layers", 1, 4)
    conds = [(v >= 0) if zero_ok else (v > 0) for v in vals]
    if key == "PER_LAYER_THICKNESS":
        conds.append(S.or_(n == 1, cfg.N_layers == n))
    if key == "FDTD_source_position":
        conds.append(n in (2, 3))
    ok = _accepts(S, cfg)
    S.prove(S.iff(ok, S.and_(*conds)), "%s accepted exactly when admissible" % key)


def h_lgrid(S):
    cfg = nidn.load_default_cfg()
    a, b, c, d = (S.real(x, 0.0, 3.0) for x in "abcd")
    cfg.TRCWA_L_grid = [[a, b], [c, d]]
    ok = _accepts(S, cfg)
    S.prove(S.iff(ok, S.and_(a > b, c < d)), "lattice accepted exactly when both rows are ordered")


def h_missing(S):
    cfg = nidn.load_default_cfg()
    k = S.choose("key", REQUIRED)
    del cfg[k]
    e = S.raises(lambda: _validate_config(cfg), KeyError)
    S.prove(e is not None, "missing key '%s' is rejected" % k)


def h_extra(S):
    cfg = nidn.load_default_cfg()
    k = S.choose("key", ["foo", "nx", "N_Freq", "TRCWA_PER_LAYER_THICKNESS", "Name", "FDTD_reflection_detector_x", "l"])
    cfg[k] = S.real("v", -10, 10)
    e = S.raises(lambda: _validate_config(cfg), KeyError)
    S.prove(e is not None, "unknown key '%s' is rejected" % k)


def h_optional(S):
    cfg = nidn.load_default_cfg()
    k = S.choose("key", ["target_frequencies", "model", "out_features", "results", "best_model_state_dict", "material_collection",
                         "N_materials", "thicknesses", "FDTD_grid_scaling"])
    cfg[k] = S.real("v", -10, 10)
    S.prove(_accepts(S, cfg), "run-time key '%s' is accepted" % k)


def h_types(S, key):
    cfg = nidn.load_default_cfg()
    v = S.choose("value", WRONG[key])
    if v == "symreal":
        v = S.real("v", -100.0, 100.0)
    elif v == "symint":
        v = S.int("v", -100, 100)
    cfg[key] = v
    e = S.raises(lambda: _validate_config(cfg), TypeError)
    S.prove(e is not None, "%s with a value of the wrong type is rejected" % key)


ENUMS = {"type": (["classification", "regression"], ["class", "Regression", "", "classification "]),
         "freq_distribution": (["linear", "log"], ["Log", "lin", "", "logarithmic"]),
         "solver": (["FDTD", "TRCWA"], ["RCWA", "fdtd", "Fdtd", "", "TRCWA "]),
         "FDTD_source_type": (["point", "line"], ["plane", "Point", ""]),
         "FDTD_pulse_type": (["ricker", "hanning", "continuous"], ["pulse", "gauss", "Ricker", ""])}


def h_enum(S, key):
    good, bad = ENUMS[key]
    cfg = nidn.load_default_cfg()
    # other fields vary over admissible values at the same time
    cfg.real_min_eps, cfg.real_max_eps = S.real("rmin", -10.0, 0.0), S.real("rmax", 0.0, 10.0)
    cfg.N_layers = S.int("N_layers", 1, 30)
    cfg.L = S.real("L", 0.1, 4.0)
    v = S.choose("value", good + bad)
    cfg[key] = v
    S.prove(_accepts(S, cfg) == (v in good), "%s='%s' %s" % (key, v, "accepted" if v in good else "rejected"))


def h_keep(S):
    """validation does not change the configuration"""
    cfg = nidn.load_default_cfg()
    cfg.solver = S.choose("solver", ["TRCWA", "FDTD"])
    cfg.N_layers = 3
    cfg.PER_LAYER_THICKNESS = S.reals("t", 3, 0.1, 3.0)
    before = {k: (list(cfg[k]) if isinstance(cfg[k], list) else cfg[k]) for k in cfg.keys()}
    _validate_config(cfg)
    S.prove(sorted(before) == sorted(cfg.keys()), "validation adds or removes no key")
    for k in before:
        if k == "TRCWA_L_grid":
            continue
        S.prove_eq(cfg[k], before[k], "validation leaves %s unchanged" % k)


def instances(tier):
    out = [dict(name="default", fn=h_default, bounds="one configuration"),
           dict(name="eps_limits", fn=h_eps, bounds="limits in [-1000,1000]"),
           dict(name="wavelengths", fn=h_wl, bounds="wavelengths 0.05-100 um, distance 0.01-10, 1-50 points, detector 1-40"),
           dict(name="lattice", fn=h_lgrid, bounds="entries in [0,3]"),
           dict(name="missing", fn=h_missing, bounds="all required keys"),
           dict(name="extra", fn=h_extra, bounds="7 unknown names, any value"),
           dict(name="optional", fn=h_optional, bounds="run-time keys"),
           dict(name="unchanged", fn=h_keep, bounds="3 layers, both solvers")]
    allk = INT_POS + FLOAT_POS
    for s in ("TRCWA", "FDTD"):
        out.append(dict(name="ranges_" + s, fn=h_ranges, args=dict(keys=allk, solver=s), cost=5,
                        bounds="all positive-valued keys at once: integers in [-3,60], floats in [-5,50]"))
    for k in WRONG:
        out.append(dict(name="type_" + k, fn=h_types, args=dict(key=k), bounds="wrong types: %s" % (WRONG[k],)))
    for k in ENUMS:
        out.append(dict(name="enum_" + k, fn=h_enum, args=dict(key=k), bounds="listed names, other fields symbolic"))
    for n in (1, 2, 3):
        out.append(dict(name="thickness%d" % n, fn=h_lists, args=dict(key="PER_LAYER_THICKNESS", n=n, zero_ok=False), bounds="%d entries in [-2,2], 1-4 layers" % n))
    for n in (1, 2, 3, 4):
        out.append(dict(name="srcpos%d" % n, fn=h_lists, args=dict(key="FDTD_source_position", n=n, zero_ok=False), bounds="%d entries in [-2,2]" % n))
    for k in ("target_reflectance_spectrum", "target_transmittance_spectrum"):
        for n in (1, 3):
            out.append(dict(name="%s%d" % (k, n), fn=h_lists, args=dict(key=k, n=n, zero_ok=True), bounds="%d entries in [-2,2]" % n))
    return out
