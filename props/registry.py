REG = {}
_b = ["const", "linear_add", "linear_mult", "linear_wn", "soft", "softref_add", "softref_mult", "softref_wn",
      "exp", "exp_complex", "exp_wn", "pow", "pow_wn", "powref", "piece", "piece_wn"]
_p = [f"pop_{k}{s}" for k in ("const", "linear", "exp", "piece") for s in ("", "_cons", "_adj")]
_q = dict(op=[0, 1, 11], x1neg=[0], no_cycle_noise=[0])
REG["C01"] = dict(cpp=dict(
    harness=["h_bounds.cpp"],
    # decay, diffusion, reset and clip are implemented once, in the common base class
    runs=[dict(run="bnd_" + x, weight=2 if x.endswith("_wn") else 1,
               **({} if x in ("const", "linear_add", "linear_mult", "linear_wn", "soft") else dict(quick=dict(pick=_q))))
          for x in _b] + [dict(run=x) for x in _p],
    bounds="devices of 1x2 to 2x2 crosspoints, one operation from an arbitrary state; bounds in [-2,2], steps in "
           "[-0.5,0.5], weights set to values in [-3,3], slopes in [-1,1], exponents in [0.25,4], |Gaussian draw|<=16, at most "
           "two coincidences per crosspoint and sweep"))
_e = ["const", "linear_add", "linear_mult", "soft", "softref_add", "softref_mult", "exp", "exp_complex", "pow", "powref",
      "piece"]
REG["C02"] = dict(cpp=dict(
    harness=["h_law.cpp"],
    runs=[dict(run="law_" + x + s) for x in _b for s in ("", "_det")] + [dict(run="eq_" + x) for x in _e]
    + [dict(run="law_soft_slopes")] + [dict(run="eq_" + x, thorough=True, weight=9) for x in ("exp_2", "pow_2", "powref_2")],
    bounds="one or two crosspoints, one pulse (laws) and up to two coincidences (equivalence of the two delivery ways); "
           "parameters in the ranges of C01; exp, pow and log as uninterpreted functions with sign and monotonicity facts"))
_i = ["ideal", "ideal_ignores", "clip", "noise", "wnoise", "quant", "quant_sto", "nm_absmax", "nm_max", "nm_const", "nm_avg",
      "nm_npsum", "nm_quant", "bm_iter", "bm_iter_nm", "bm_worst", "bm_res", "bm_bwd", "posneg", "posneg_sum", "posneg_bm",
      "voffset", "rseries", "nonlin", "irdrop", "avg_seq", "wasym"]
REG["C03"] = dict(cpp=dict(
    harness=["h_io.cpp"], runs=[dict(run="io_" + x, weight={"bm_iter_nm": 9, "bm_worst": 8, "nm_npsum": 7}.get(x, 1)) for x in _i],
    bounds="weight matrices of 1x1 to 2x3, one product from a fresh pass (three for the running average); weights in [-2,2], "
           "inputs in [-4,4], at most 5 rounds of bound management"))
_u = ["mgmt", "sto", "sto_d", "sto_bl", "cmp", "cmp_d", "cmp_bl", "cmp_um", "sto_um", "cmp_res", "sto_res", "mean", "mean_d", "mean_um",
      "mean_res", "det", "det_d", "det_um", "det_res", "none", "lr0"]
REG["C04"] = dict(cpp=dict(
    harness=["h_upd.cpp"], runs=[dict(run="upd_" + x, weight={"mean": 3, "mean_d": 3, "cmp_res": 2}.get(x, 1)) for x in _u],
    bounds="one update of 1x1 to 2x2 crosspoints of constant-step devices without pulse noise, trains of up to 3 slots (5 for the "
           "management laws); |x|,|d| zero or in [0.125,4] (for the deterministic types one of the two from three magnitudes per "
           "sign, with management both), lr = +-0.125 (management: [0,0.25])"))

_w = ["mod_add", "mod_mult", "mod_poly", "mod_disc", "mod_disc_levels", "mod_dorefa", "mod_drop", "clip", "remap_layer", "remap_channel",
      "remap_range", "drift_simple", "drift_plain", "drift_dtod", "drift_std", "drift_k", "drift_offset", "drift_noise", "device_ops",
      "device_ops_noise", "tile_modified", "tile_ops"]
REG["C05"] = dict(cpp=dict(
    harness=["h_wops.cpp"], runs=[dict(run=x, weight=3 if x.startswith("device_ops") else 1) for x in _w],
    bounds="matrices of 2x2 (1x2 within a tile, one weight for drift), weights in [-2,2], up to three calls; parameters in the "
           "ranges of the harness, exp, pow, log and tanh as uninterpreted functions"))


_w = ["products_fp", "products_perfect", "products_io", "indexed_fp", "indexed_perfect", "indexed_io", "pulsed_batch", "copy_fp",
      "copy_det", "copy_mean", "copy_linear", "copy_soft", "copy_exp", "copy_piece"]
REG["C06"] = dict(cpp=dict(
    harness=["h_tile.cpp"], runs=[dict(run=x, weight=4 if x in ("indexed_io", "pulsed_batch") else 1) for x in _w],
    bounds="matrices of up to 2x3, batches of up to 2, patches of 2 elements at 2 places of images of 3 pixels; weights and inputs "
           "in [-2,2] (fixed weights where inputs and outputs are clipped); a step before and two after the copy"))

_k = dict(buffered=18, chopped=17, mixedprec=11, vector=9, transfer=9, transfer_lr=9, copy_mixedprec=6)
REG["C07"] = dict(cpp=dict(
    harness=["h_comp.cpp"], runs=[dict(run=x, weight=_k.get(x, 3)) for x in
                                  ("buffered", "chopped", "mixedprec", "vector", "transfer", "transfer_lr", "copy_mixedprec", "onesided",
                                   "copy_vector", "copy_onesided", "copy_transfer", "copy_transfer_hidden", "copy_buffered", "copy_chopped",
                                   "state_noise", "state_noise_exp", "state_noise_softref")],
    bounds="matrices of 2x2 and 2x3, two or three devices of constant-step cells without spreads, weights in [-1,1] or [-2,2], one to seven "
           "updates, deterministic pulses; transfers write exactly (pulse type none), mixed precision writes with pulses"))


def py(harness, runs, bounds, weights=None, assumptions=(), thorough=()):
    rs = []
    for r in list(runs) + list(thorough):
        r = dict(run=r) if isinstance(r, str) else dict(r)
        r.setdefault("weight", (weights or {}).get(r["run"], 1))
        rs.append(r)
    for r in rs[len(runs):]:
        r["thorough"] = True
    return dict(py=dict(harness=harness, runs=rs, bounds=bounds, assumptions=list(assumptions)))


FAKE = ("tiles of the compiled simulator are replaced by a Python stand-in with the documented interface (py/fake.py); their real "
        "products are the subject of C03, their updates of C04")
REG["P01"] = py("h_weights", ["roundtrip", "roundtrip_custom", "forward", "forward_custom", "scales", "remap", "update_custom",
                              "update_torch", "program", "random_init", "analog_bias", "read"],
                "matrices of 2x2 (1x1 and 1x2 where stated in py/h_weights.py), weights in [-2,2], one to two operations",
                dict(remap=9, roundtrip=5, forward=5, analog_bias=5, read=5), assumptions=[FAKE])
REG["P02"] = py("h_layers", ["linear_split", "linear_scaled", "linear_update", "leading_dims", "convert", "convert_conv", "container"]
                + [dict(run="rnn", fix=dict(cell=i), weight=9) for i in range(4)]
                + [dict(run="rnn_states", fix=dict(cell=i), weight=5) for i in range(4)],
                "layers of up to 5 inputs and 4 outputs, tiles of 1 to 3 lines, batches of 2, sequences of 2 to 3 steps",
                thorough=[dict(run="rnn_grad")], assumptions=[FAKE])
REG["P03"] = py("h_layers", ["conv1d", "conv2d", "conv2d_indexed", "conv2d_mapped", "conv3d", "conv_history", "conv_update", "conv_refused"],
                "kernels up to 2x3, images up to 4x2 or 2x3x2, up to 2 input channels and 2 images", assumptions=[FAKE])
REG["P04"] = py("h_mvm", ["perfect", "linear_grad", "dac", "adc", "both", "nm", "noise", "bm", "bm_res", "sat", "tile", "unsupported"]
                + [dict(run="linear", fix=dict(nm=i), weight=6) for i in range(4)]
                + [dict(run="trans", fix=dict(nm=i), weight=9) for i in range(2)],
                "matrices of 1x1 to 2x3, batches of 1 to 2, weights in [-2,2], inputs in [-4,4], at most 5 rounds of bound "
                "management")
REG["P05"] = py("h_ir", ["clip", "set", "grad_accum", "unsupported"]
                + [dict(run="init_data", fix=dict(kind=i), weight=5) for i in range(2)]
                + [dict(run="grad", fix=dict(kind=i), weight=9) for i in range(3)]
                + [dict(run="out_clip", fix=dict(shape=i), weight=8) for i in (0, 2)],
                "layers of up to 2x2, ranges in [0.25,2], up to three batches of at most two samples", assumptions=[FAKE],
                thorough=[dict(run="out_clip", fix=dict(shape=1))])
REG["P06"] = py("h_noise", ["own", "linear", "refused", "prog", "nu", "drift"] + [dict(run="off", fix=dict(model=i), weight=3) for i in range(5)]
                + [dict(run="convert", weight=9), dict(run="slices", weight=9)],
                "matrices of 1x2 or 2x1, conductances of one to two devices, weights in [-2,2], default and given parameters; "
                "times 0, 1, 86400 and 1e6 s; |Gaussian draw| <= 64 where constants are rounded",
                assumptions=["numpy.interp, numpy.log10 and sklearn's one-feature regression, which the code calls with numpy arrays, are "
                             "replaced by models on tensors while exploring (py/h_noise.py); replays use the real ones"])
REG["P07"] = py("h_hwa", ["noise", "discretize", "clip", "refused", "backward_step"]
                + [dict(run="remap", fix=dict(kind=i), weight=5) for i in range(2)],
                "layers of up to 2x2, batches of 2, weights in [-2,2], one to two passes and one step")
REG["P08"] = py("h_drift", ["compensate", "history", "uniform", "conv", "trans", "model", "state", "zero"],
                "layers of 2x1 (2x2, and two layers of one to two tiles where stated), |weights| in [1.125,2], programming errors of at most "
                "0.125, drift factors in [0.25,1], three times, up to five operations", dict(compensate=5, history=3), assumptions=[FAKE])
REG["P09"] = py("h_state", ["copy", "optimizer", "snapshot", "arrays", "mismatch", "replace", "replace_all", "conv", "range", "drifted", "hidden"],
                "layers of 2x1 to 2x2, all tile kinds, weights in [-2,2], up to four operations",
                assumptions=[FAKE, "copies through pickle are not explored symbolically (their state is that of deepcopy)"])
REG["P10"] = py("h_optim", ["passes", "discard", "groups", "order", "closure", "digital", "frozen", "images", "view"],
                "layers of 1x1 and 2x1, up to three passes of one to four vectors, convolutions 1x2 on images of up to 2x3, one or two steps",
                assumptions=[FAKE])
