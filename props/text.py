"""Property texts; gen.py turns them into properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=(), note="", na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, observe=list(observe), note=note, na=na))


D = "src/rpucuda/"
prop("C01", "Device weights never leave their per-crosspoint bounds",
     "Whatever values and per-crosspoint parameters a resistive device has, after every operation that can change its "
     "weights (setting weights, pulsed updates with or without weight-dependent noise, decay, diffusion, reset, "
     "clipping) each stored weight lies between that crosspoint's lower and upper bound; clipping to a value clips as far "
     "as the bounds allow. Bounds generated for a new device are always ordered, and with consistency enforced they "
     "include zero and the step sizes are not negative. A pulsed update never moves an unselected crosspoint.",
     ["inputs", "configurations", "histories"],
     "All device types, all real-valued weights, bounds, step sizes, slopes, decay, diffusion and reset parameters and "
     "all random draws; one operation from an arbitrary state (inductive, so histories of any length).",
     "The tests sample a few parameter presets and random seeds; a bound is broken only by rare combinations such as a "
     "negative step size, an outlier draw, or a reset bias beyond the bound.",
     [D + x for x in ("rpu_pulsed_device.cpp", "rpu_constantstep_device.cpp", "rpu_linearstep_device.cpp",
                      "rpu_softbounds_reference_device.cpp", "rpu_expstep_device.cpp", "rpu_powstep_device.cpp",
                      "rpu_powstep_reference_device.cpp", "rpu_piecewisestep_device.cpp", "rpu_pulsed_device.h",
                      "weight_clipper.cpp")],
     [("saturation after every pulse", D + "rpu_pulsed_device.h"), ("onSetWeights, decay, diffusion, reset, clip",
      D + "rpu_pulsed_device.cpp"), ("generation of bounds", D + "rpu_pulsed_device.cpp populate")],
     ["tile get_weights() after set_weights/update/decay/diffuse/reset/clip"])
prop("C02", "Each device type moves a weight by its documented pulse response",
     "A pulse in a given direction moves the selected weight by exactly the amount the device's documented response "
     "prescribes for its current value, its crosspoint parameters, the global settings and the drawn cycle-to-cycle "
     "noise (constant, linear, soft-bounds, exponential, power, piecewise, and their reference variants), then saturates "
     "at the bounds. The direction is set by the sign of the coincidence, several coincidences act as that many pulses "
     "one after the other, and both ways of delivering pulses to a device (one list of active lines, or per-crosspoint "
     "counts) lead to the same weight. Weight-dependent write noise only changes the visible weight, never the stored one.",
     ["inputs", "configurations"],
     "All real weights, crosspoint parameters and global parameters in stated ranges, all draws, both directions.",
     "The tests compare mean behaviour of random presets against loose tolerances, or nothing at all; the law must hold "
     "point-wise for every weight and parameter.",
     [D + x for x in ("rpu_constantstep_device.cpp", "rpu_linearstep_device.cpp", "rpu_softbounds_reference_device.cpp",
                      "rpu_expstep_device.cpp", "rpu_powstep_device.cpp", "rpu_powstep_reference_device.cpp",
                      "rpu_piecewisestep_device.cpp", "rpu_pulsed_device.h", "rpu_linearstep_device.h")],
     [("update functors of each device", D + "rpu_*step_device.cpp"), ("applyUpdateWithStep loops",
      D + "rpu_pulsed_device.h")],
     ["weights after an update with known pulses"])
prop("C03", "Analog matrix-vector products follow their documented periphery pipeline",
     "A forward or backward product of a simulated crossbar equals, for the drawn random numbers, the documented chain: "
     "scale by noise management, discretise and clip the input (DAC), add input noise, multiply with the weights (transposed "
     "for backward), add weight noise, IR drop and voltage-offset effects, apply output non-linearity, asymmetry, noise, "
     "discretisation and bound (ADC), and undo all scales; positive and negative inputs separately where so configured. "
     "Bound management (forward only) halves the input until no output exceeds the bound or a documented limit is reached. "
     "A perfect product ignores all of it and is the exact product. The settings off by default have no effect, "
     "per-line parameters are drawn once, noise management averages follow the calls made in their direction and survive a copy, and nothing is "
     "written outside the result.",
     ["inputs", "configurations", "histories"],
     "All real weights and inputs in stated ranges, all draws, both directions, all noise and bound management types, "
     "converter, noise, bound and asymmetry parameters, memory strides.",
     "The tests compare a handful of configurations with averaged results or with the reference Python tile for random "
     "inputs; mistakes in the handling of sign, zero, saturation or parameter combinations pass unnoticed.",
     [D + "rpu_forward_backward_pass.cpp", D + "rpu_forward_backward_pass.h", D + "rpu.cpp"],
     [("noise management", D + "rpu_forward_backward_pass.cpp computeNoiseManagement"),
      ("analog MAC, DAC and ADC", D + "rpu_forward_backward_pass.cpp computeAnalogMV*, applyDAC, finalizeOutput")],
     ["tile forward() and backward() results"],
     note="Noise management Max is checked for inputs with a positive element (the documentation leaves the other case open).")
prop("C04", "A pulsed update moves each weight by its coincidences, against lr*d*x",
     "One update changes each crosspoint by exactly as many device pulses as the pulse trains of its row and column "
     "coincide (stochastic trains, compressed or with separate signs; mean counts; deterministic implicit), in the direction "
     "opposite to lr*d*x, for either sign of the learning rate; never more than the train length; a zero input, gradient or "
     "learning rate moves nothing. Update and bit-length management choose the shortest sufficient train up to the configured "
     "maximum and scales such that the mean update stays lr*d*x, both probabilities balanced and the input not clipped. "
     "Resolutions may be given as widths or numbers of steps. With pulses switched off the update is the exact outer "
     "product, clipped to the device bounds only if asked.",
     ["inputs", "configurations"],
     "All real inputs, gradients, weights, step sizes and uniform draws in stated ranges; all pulse types, both signs of the "
     "learning rate, strides.",
     "The tests compare averages over many updates with tolerances; sign, rounding or management mistakes in rare "
     "combinations are within the noise or never exercised (negative learning rates, resolutions).",
     [D + x for x in ("rpu_weight_updater.cpp", "sparse_bit_line_maker.cpp", "dense_bit_line_maker.cpp",
                      "rpu_pulsed_meta_parameter.cpp", "rpu_pulsed_device.h")],
     [("updateVectorWithDevice", D + "rpu_weight_updater.cpp"), ("performUpdateManagement",
      D + "rpu_pulsed_meta_parameter.cpp"), ("bit line makers", D + "sparse_bit_line_maker.cpp, dense_bit_line_maker.cpp")],
     ["tile weights after update()"])

S = "src/aihwkit/simulator/"
N = "src/aihwkit/nn/"
prop("C05", "Weight modifiers, clipping, remapping, drift and decay follow their laws",
     "In the compiled simulator, weight modifiers leave the stored weights alone and give the documented modified copy (noise "
     "relative to the actual or assumed maximum, discretisation, DoReFa, dropped connections, bias column kept if asked), which "
     "training and, only if enabled, evaluation use while updates act on the stored weights. Clipping and remapping take the "
     "documented bounds and scales and keep the logical weights. Drift follows the power law in conductance space since a "
     "weight was last written. Decay, diffusion and column resets change the chosen weights by their parameters, within the "
     "bounds of each crosspoint, with the write noise on top of the stored value.",
     ["inputs", "configurations", "histories"],
     "All real weights, draws and parameters in stated bounds; all types of modifiers, clipping and remapping; up to three calls.",
     "The C++ operations are tested, if at all, by printing or with one random matrix against tolerances of statistics.",
     [D + "weight_modifier.cpp", D + "weight_clipper.cpp", D + "weight_remapper.cpp", D + "weight_drifter.cpp",
      D + "rpu_pulsed_device.cpp", D + "rpu_simple_device.cpp", D + "rpu.cpp"],
     [("WeightModifier::apply", D + "weight_modifier.cpp"), ("WeightDrifter::apply", D + "weight_drifter.cpp"),
      ("WeightRemapper::apply", D + "weight_remapper.cpp"), ("decayWeights, diffuseWeights, resetCols", D + "rpu_pulsed_device.cpp")],
     ["weights and scales after the operation, tile outputs"],
     note="Modifiers of type PCMNoise, remapping by norm or with offsets and stochastic weight averaging are not offered by the Python interface.")
prop("C06", "Batches, patches, copies and saved states of a tile equal single steps",
     "In the compiled simulator the product, transposed product and update of a batch are those of its samples one after the "
     "other, whether inputs and outputs are given by rows or transposed, with or without a bias column, and for image patches "
     "given by an index matrix (entries 0 and 1 are constants, gradients of shared pixels add up). Updates with given delta "
     "weights leave the weights and yield the change over the negative learning rate. A tile copied, assigned, moved, or "
     "rebuilt from its dumped extra state and weights goes on exactly as the original would (modified weights, drift history, "
     "pulsed updates, per-crosspoint parameters) and shares nothing with it.",
     ["inputs", "configurations", "histories"],
     "All real weights and inputs in stated bounds, all layouts, batches of up to two samples or images, all index matrices over three pixels, "
     "up to three steps before and after the copy.",
     "The tests compare whole layers with random images; copies are checked for their weights, not for what they do next.",
     [D + "rpu.cpp", D + "rpu_pulsed.cpp", D + "rpu_weight_updater.cpp", D + "dense_bit_line_maker.cpp"],
     [("forwardMatrixBias, forwardIndexed, backwardIndexed, updateIndexed, copies, dumpExtra, loadExtra", D + "rpu.cpp"),
      ("pulsed tiles", D + "rpu_pulsed.cpp"), ("implicit pulses", D + "dense_bit_line_maker.cpp")],
     ["outputs, gradients and weights of the tile"],
     note="Copies are compared for devices without random draws in the steps compared: a copy has its own stream of draws.")
prop("C07", "Compound devices: visible weight, pulses, transfers, refresh and copies",
     "In the compiled simulator the visible weight of a device made of several (vector, reference, transfer, one-sided, mixed "
     "precision) is at all times the documented combination of the weights inside it, each within its own bounds. Updates reach "
     "the devices their policy names. Transfers happen at the configured number of updates, read the configured columns or "
     "rows in turn, and add to the next device exactly the value read times the transfer rate (buffered: in whole steps, the rest "
     "staying in the buffer; chopped: with the signs of the choppers at the time of writing), resetting only what was "
     "read. A one-sided pair is refreshed without changing the difference. Mixed precision accumulates the exact (or "
     "quantised) gradient and writes whole steps. Copies, moves and rebuilt states go on as the original; given "
     "persistent weights are kept.",
     ["inputs", "configurations", "histories"],
     "All real start weights and inputs in stated bounds, all the combinations of the options listed, one to seven updates.",
     "The tests train such devices on random data and check that the loss falls, or compare with tolerances of the size of the noise.",
     [D + "rpu_vector_device.cpp", D + "rpu_transfer_device.cpp", D + "rpu_buffered_transfer_device.cpp",
      D + "rpu_chopped_transfer_device.cpp", D + "rpu_onesided_device.cpp", D + "rpu_mixedprec_device.cpp",
      D + "rpu_mixedprec_device_base.cpp"],
     [("reduceToWeights, update policies", D + "rpu_vector_device.cpp"),
      ("transfer, readVector, writeVector", D + "rpu_transfer_device.cpp, rpu_buffered_transfer_device.cpp, rpu_chopped_transfer_device.cpp"),
      ("refreshWeights", D + "rpu_onesided_device.cpp"), ("forwardUpdate, transfer", D + "rpu_mixedprec_device_base.cpp"),
      ("onSetWeights, onSetDeviceParameter", D + "rpu_pulsed_device.cpp")],
     ["weights of the tile, hidden weights, saved values"],
     note="Cells are constant-step devices without spreads; pulses are deterministic. The dynamic transfer device (AGAD) is not covered.")
prop("P01", "Weights written to a tile are the weights read back, computed with and trained",
     "Setting the weights (and bias) of a tile and reading them back yields the same numbers, whatever the mapping "
     "configuration: weight scaling off, to any omega, per column or per tile, with digital or analog bias, with or without "
     "learned output scales. With weight scaling the values held in the tile do not exceed omega, and analog weights times all "
     "scales equal the logical weights. The forward product uses exactly these weights and bias. Setting or reading scales "
     "(mapping, learned, combined) reports and applies what was set; remapping changes neither weights nor outputs. One SGD "
     "step changes the logical weights as the digital step does (subject to the learning-rate compensation option). "
     "Programming by read-verify aims at the reference weights and stops when within tolerance; uniform random starts lie in "
     "the requested range. Estimating the weights by products (read_weights) yields them where the product is exact.",
     ["inputs", "configurations", "histories"],
     "All real weights, biases, scales, inputs and gradients in stated ranges and all combinations of mapping options.",
     "The tests check a few random matrices per preset with tolerances; zero rows, single-sided options, scales set twice or "
     "unusual combinations are not covered.",
     [S + "tiles/periphery.py", S + "tiles/base.py", S + "tiles/custom.py", S + "tiles/inference_torch.py",
      S + "tiles/torch_tile.py"],
     [("set_weights/get_weights and scales", S + "tiles/periphery.py"), ("program_weights, remap_weights",
      S + "tiles/periphery.py"), ("custom and torch tiles", S + "tiles/custom.py, torch_tile.py")],
     ["tile.get_weights(), get_scales(), forward()"])
prop("P02", "Linear and recurrent analog layers equal their digital ones when ideal",
     "With an ideal (noise-free, unlimited) configuration an analog linear layer, a layer split into an array of tiles of "
     "limited size, and recurrent layers (vanilla, LSTM, GRU; stacked, bidirectional, with or without initial states) compute "
     "the same outputs and input gradients as the digital layer with the same weights, for any number of leading dimensions "
     "and any size of tiles, with scaled weights too; one optimizer step equals the digital step. Converting a model to analog "
     "and back keeps all weights, the structure, the geometry of convolutions and the original; weights of containers are reported by name.",
     ["inputs", "configurations"],
     "All real weights, inputs and gradients; layer sizes up to 5, tile sizes 1 to 3, two to three time steps.",
     "The tests compare with the digital layer for a handful of sizes and random values with tolerances and tile arrays "
     "that divide evenly.",
     [N + "modules/linear.py", N + "modules/rnn/rnn.py", N + "modules/rnn/cells.py", N + "modules/rnn/layers.py", N + "conversion.py",
      S + "tiles/array.py", S + "tiles/module.py", S + "tiles/functions.py", N + "modules/container.py", N + "modules/base.py"],
     [("TileModuleArray", S + "tiles/array.py"), ("AnalogFunction", S + "tiles/functions.py"),
      ("convert_to_analog / convert_to_digital", N + "conversion.py")],
     ["layer outputs, gradients, get_weights()"])
prop("P03", "Analog convolutions equal digital convolutions when ideal",
     "With an ideal configuration the 1D, 2D and 3D analog convolutions compute the outputs, input gradients and weight "
     "updates of the digital convolution with the same weights, bias, kernel, stride, padding and dilation, both through "
     "unfolding and through the indexed product, as one tile or mapped onto several tiles with limited input and output "
     "sizes, for batched and (2D) unbatched images, whatever other image sizes the layer has processed before.",
     ["inputs", "configurations", "histories"],
     "All real weights, images and gradients; small kernels, strides, paddings and images.",
     "The tests use a few square shapes, random values and no sequence of different image shapes.",
     [N + "modules/conv.py", N + "modules/conv_mapped.py", S + "tiles/periphery.py", S + "tiles/functions.py"],
     [("fold indices", N + "modules/conv.py _calculate_indexes"), ("indexed products", S + "tiles/periphery.py")],
     ["layer outputs, gradients, weights after a step"])
prop("P04", "The PyTorch analog product follows its documented periphery pipeline",
     "The PyTorch implementation of the analog matrix-vector product equals, for the drawn random numbers, the documented "
     "chain: noise management scale, DAC (resolution, bound, asymmetry, stochastic rounding, noise), product (or transposed) "
     "with weight noise, ADC (non-linearity, output noise, resolution, bound, asymmetry), and all scales undone; iterative bound "
     "management halves the input until nothing clips or a documented limit is reached. Disabled settings have no effect, a "
     "perfect or plain product is exact with exact gradients, gradients pass saturation straight or not at all as configured, "
     "and settings that are not supported are refused.",
     ["inputs", "configurations"],
     "All real weights and inputs in stated ranges, all draws, all supported managements and converter settings.",
     "The tests compare with the C++ tile for a few random inputs and do not vary sign, zero, saturation or combinations.",
     [S + "tiles/analog_mvm.py", S + "tiles/torch_tile.py"],
     [("AnalogMVM.matmul", S + "tiles/analog_mvm.py"), ("TorchSimulatorTile", S + "tiles/torch_tile.py")],
     ["results and gradients of AnalogMVM.matmul and of the torch tile"])
prop("P05", "Input ranges clip, initialise, learn and scale as documented",
     "With an input range, inputs are clipped to it before and rescaled after the analog product (training and evaluation, "
     "weight update included); without one nothing is clipped. The range is set by its magnitude, initialised during "
     "the first training batches to the running mean of alpha times the standard deviation (evaluation and constant batches do "
     "not count), and its gradient is the documented one: clipped elements pull it outward, relative scaling, gradient scale, decay when few "
     "inputs clip, growth in proportion to the share of clipped outputs. Gradients of several passes add up and an optimizer "
     "step moves the range against them. Output clipping management that cannot work is refused.",
     ["inputs", "configurations", "histories"],
     "All real inputs, gradients, weights and ranges in stated bounds; all options; up to three batches.",
     "The tests check that training runs or that a range changes, not its value for arbitrary inputs and options.",
     [S + "tiles/periphery.py", S + "tiles/inference_torch.py", S + "parameters/pre_post.py", S + "tiles/rpucuda.py"],
     [("apply_input_range, post_backward", S + "tiles/periphery.py"), ("InputRangeForward", S + "tiles/inference_torch.py")],
     ["tile.input_range and its gradient, layer outputs"],
     note="For the compiled inference tile the weight update is taken with the clipped input divided by the range.")
prop("P06", "Conductance converters and noise models do what they document",
     "Converting weights to conductances and back is the identity, keeps the weights, stays within the conductance limits, uses "
     "the full range and the devices of the right sign (more significant pairs only when others are full); a change of the "
     "conductances changes the weights linearly. Programming noise, drift coefficients, drift and read noise follow the "
     "documented formulas with the given references and scales, are never negative where conductances are, and every device "
     "of a unit cell gets its own coefficient. With all noise off, programming and drift change nothing; at time zero nothing "
     "has drifted. Wrong converter settings are refused.",
     ["inputs", "configurations"],
     "All real weights, conductances and draws in stated bounds; all converters and noise models with default and given settings.",
     "The tests program a few random matrices and check that something changed or rough statistics.",
     ["src/aihwkit/inference/converter/conductance.py", "src/aihwkit/inference/converter/fusion.py",
      "src/aihwkit/inference/noise/base.py", "src/aihwkit/inference/noise/pcm.py", "src/aihwkit/inference/noise/custom.py",
      "src/aihwkit/inference/noise/hermes.py", "src/aihwkit/inference/noise/reram.py"],
     [("convert_to_conductances, convert_back_to_weights", "src/aihwkit/inference/converter/conductance.py"),
      ("apply_*_noise_to_conductance", "src/aihwkit/inference/noise")],
     ["results of the converters and noise models"])
prop("P07", "Hardware-aware training on the torch tile modifies, clips and remaps as set",
     "Weight noise (multiplicative, additive, per batch or per sample) and discretisation act on the product in training "
     "only, with the documented strength relative to the actual or assumed maximum; the stored weights stay, input gradients "
     "see the noisy weights, weight gradients pass straight through. After an optimizer step weights are clipped at the fixed "
     "value or the multiple of their deviation and only with a positive bound. Remapping keeps the logical weights, outputs "
     "and bias and fills the range, zero rows included. Options the torch tile lacks are refused.",
     ["inputs", "configurations"],
     "All real weights, inputs, gradients and draws in stated bounds; all supported types and options.",
     "The tests run training loops and check losses or that values changed.",
     [S + "tiles/torch_tile.py", S + "tiles/inference_torch.py", S + "tiles/utils.py", "src/aihwkit/optim/analog_optimizer.py"],
     [("modify_weight, clip_weights, remap_weights", S + "tiles/torch_tile.py"), ("post_update_step", S + "tiles/inference_torch.py")],
     ["layer outputs, gradients, weights after a step"])
prop("P08", "Drift and its compensation depend only on programming and time",
     "For any noise model, drifting gives the programmed weights drifted to the given time, whatever drifts came before; "
     "programming starts over from the reference or the current weights, newly set or loaded weights are programmed before they "
     "drift. The compensation factor (global, per column, against the exact reference) is the ratio of the read-outs, applied "
     "to evaluation outputs only (of linear layers, convolutions and transposed tiles), is one after programming, undoes a uniform drift and "
     "stays finite for zero weights. It reaches every tile of a model, and a saved drifted layer evaluates the same when loaded.",
     ["inputs", "configurations", "histories"],
     "All real weights, programming errors and drift factors in stated bounds, any noise model, up to five operations.",
     "The tests drift a layer once or twice and compare losses or statistics; they do not mix setting, loading, programming "
     "again and drifting.",
     [S + "tiles/inference.py", "src/aihwkit/inference/compensation/drift.py", "src/aihwkit/inference/compensation/base.py",
      N + "modules/base.py", N + "modules/container.py", S + "tiles/module.py", S + "tiles/inference_torch.py"],
     [("program_weights, drift_weights, post_forward", S + "tiles/inference.py"), ("readout, apply", "src/aihwkit/inference/compensation")],
     ["tile weights, alpha, layer outputs"])
prop("P09", "Copies and saved states equal their source and are independent of it",
     "A layer copied with deepcopy, or loaded from a state dict (its own, another layer's, or a deep copy of it) has the "
     "weights, bias, scales, ranges and outputs of the source, takes the same next training step, and shares nothing with it: neither "
     "training nor configuration of one affects the other. A state dict is a snapshot that can be loaded repeatedly; an "
     "optimizer made before loading goes on training the loaded weights; indexed convolutions and drifted tiles go along. States of other tile kinds "
     "or mappings are refused, configurations are taken over or kept as asked, and replacing one keeps weights and scales.",
     ["inputs", "configurations", "histories"],
     "All real weights, inputs and gradients; five tile kinds; up to four operations.",
     "The tests compare weights after a load for random values, and train on with one optimizer order and tile kind only.",
     [S + "tiles/base.py", S + "tiles/module.py", S + "tiles/array.py", "src/aihwkit/optim/context.py",
      "src/aihwkit/optim/weight_view.py", N + "modules/base.py", "src/aihwkit/optim/analog_optimizer.py"],
     [("__getstate__, __setstate__", S + "tiles/base.py"), ("state dict hooks", S + "tiles/module.py"),
      ("AnalogContext", "src/aihwkit/optim/context.py")],
     ["weights, outputs and updates of copies"])
prop("P10", "An optimizer step applies each tile's gradients once, at its own learning rate",
     "A step of AnalogSGD, AnalogAdam or any torch optimizer wrapped in AnalogOptimizer updates every analog tile used since the "
     "last step (or since zero_grad, which discards) exactly once, with the sum of the gradients of all its passes - whatever "
     "the number, the shapes and the image sizes of their inputs - and with the learning rate of its parameter group, also after "
     "regrouping, set_learning_rate or a scheduler; a zero rate or no pass leaves it as it is; every tile is told about the end "
     "of the step once, after the update. Closures are evaluated once with gradients and their loss is returned. Digital "
     "parameters are stepped exactly as by the torch optimizer. Frozen layers stay but pass gradients on. The parameter "
     "of a tile shows its logical weights, an own buffer or nothing, as its view mode says, and never lets the weights be written.",
     ["inputs", "configurations", "histories"],
     "All real weights, inputs and gradients, up to three passes of all listed shapes, all tile kinds and options.",
     "The tests train single layers with one two-dimensional batch per step and one group; nothing checks which gradient a step used.",
     ["src/aihwkit/optim/analog_optimizer.py", "src/aihwkit/optim/context.py", S + "tiles/functions.py",
      S + "tiles/periphery.py"],
     [("AnalogOptimizerMixin", "src/aihwkit/optim/analog_optimizer.py"), ("AnalogContext", "src/aihwkit/optim/context.py"),
      ("AnalogFunction", S + "tiles/functions.py"), ("indexed passes", S + "tiles/periphery.py")],
     ["weights after the step, calls of the tiles, values of the context"],
     note="The compiled tiles are replaced by an exact stand-in (they are checked by C01-C07).")
