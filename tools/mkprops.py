"""Writes properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
S = "src/deepwave/"


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=[S + f for f in files.split()],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=observe, hook_needed=None),
    ))


ALLC = "scalar.c scalar_born.c acoustic.c elastic.c"
ALLPY = "scalar.py scalar_born.py acoustic.py elastic.py"

prop("C01", "Compiled propagators are memory safe and free of undefined behaviour",
     "For every problem the library accepts (any propagator, number of dimensions, accuracy, domain size, PML width, precision, storage mode, batching, "
     "cropping and set of locations), running it forward, backward and, where supported, double backward never makes the compiled code read or write outside the arrays it was given, "
     "perform an operation undefined in C, or return data that depends on uninitialised memory.",
     ["inputs", "configurations"], "Every accepted problem shape and option combination, including domains smaller than the stencil, PML wider than the domain, zero steps of remainder and odd interval combinations.",
     "The tests use a few dozen domain shapes without sanitizers; an out-of-range index in one boundary/tail combination usually lands in another live tensor and goes unnoticed.",
     ALLC + " simple_compress.c storage_utils.c " + ALLPY,
     [("loop bounds and pml region splits", "scalar.c"), ("store indexing by sampling interval", "common_cpu.h"), ("buffer allocation", "backend_utils.py")],
     ["AddressSanitizer/UBSan reports of the rebuilt library", "results when fresh allocations are filled with NaN"])
prop("C02", "Results are race free and independent of the number of threads",
     "Within a call the parallel shots never perform conflicting unsynchronised accesses; the outputs of the same call are identical, and its gradients equal up to the rounding of sums over shots, whatever the number of threads and however they are scheduled.",
     ["schedules"], "All thread counts and interleavings of the shot-parallel loops, with more threads than shots and fewer, for models shared by the shots and batched models.",
     "The tests run each case once with one thread count; a race on shared gradient or scratch memory shows only under particular interleavings.",
     ALLC + " simple_compress.c storage_utils.c", [("per-thread gradient buffers and their reduction", "scalar.c"), ("omp parallel for over shots", "elastic.c")],
     ["ThreadSanitizer reports under a pthread based OpenMP runtime with injected delays", "bitwise comparison of outputs and gradients over thread counts"])
prop("C03", "Forward propagation computes the documented discretised equations",
     "For every accepted problem, the wavefields, PML memory variables and receiver data returned by each propagator are, to rounding error, those obtained by stepping the documented finite difference equations "
     "(stencil of the chosen order, C-PML profile, staggering, source scaling and injection time, recording time, zero field outside the domain, resampling to the internal time step) from the given initial state.",
     ["inputs", "configurations"], "Propagators, 1-3 dimensions, orders 2-8, both precisions, all domain and per-side PML sizes, heterogeneous and batched models, all source/receiver types and counts, initial wavefields, step ratios, resampling options.",
     "The tests compare a few configurations with analytic solutions to loose tolerances, so errors confined to an order, axis, PML corner, batch slot or unusual size are invisible.",
     ALLPY + " " + ALLC + " common.py common_cpu.h regular_grid.py regular_grid.h staggered_grid.py staggered_grid.h",
     [("time stepping kernels", "scalar.c"), ("C-PML profiles", "common.py"), ("resampling", "common.py")],
     ["every returned tensor"])
prop("C04", "Backpropagated gradients are the derivative of the forward map",
     "For every accepted problem and every linear functional of the outputs, the gradient returned for each model, source amplitude and initial wavefield is, to rounding error, the exact derivative of the discretised forward map "
     "(with model contributions sampled at the requested interval), whichever subset of the inputs requires gradients.",
     ["inputs", "configurations"], "As for the forward property, times all functionals of outputs, subsets of inputs requiring gradients, and gradient sampling intervals including ones that do not divide the number of steps.",
     "gradcheck in the tests covers a few small configurations; adjoint errors confined to a PML side, an order, a remainder step or a batching combination remain.",
     ALLPY + " " + ALLC, [("adjoint kernels", "scalar.c"), ("adjoint staggered kernels", "elastic.c"), ("snapshot storage of forward quantities", "backend_utils.py")],
     ["gradients after backward()"])
prop("C05", "Second derivatives are exact where offered and refused elsewhere",
     "Backpropagating through the gradient of the scalar propagator gives, to rounding error, the exact second-order derivatives of the discretised forward map for every accepted problem (with model contributions sampled at the requested interval); "
     "calling backward() through the gradient of a propagator that does not offer it raises an error instead of returning incomplete derivatives.",
     ["inputs", "configurations"], "All scalar problems (dimensions, orders, PML, batching, step ratios, sampling intervals), all directions and functionals; every other propagator.",
     "gradgradcheck covers a handful of small problems; the Born-like double backward kernel has its own boundary, storage and sampling logic.",
     "scalar.py scalar.c scalar_born.py acoustic.py elastic.py", [("double backward pass", "scalar.c"), ("once-differentiable guards", "acoustic.py")],
     ["Hessian-vector products", "exceptions from backward()"])
prop("C06", "Propagation can be split into segments at any time steps",
     "Running a simulation in consecutive segments, each started from the wavefields returned by the previous one and given its share of the source amplitudes, yields the same receiver data, final wavefields and gradients as running it in one call.",
     ["histories"], "All sequences of split points (including segments of one step), all propagators, dimensions, PML, cropping and batching options.",
     "A test continues one run at one point; the hidden state that must survive a restart differs with parity of steps, PML and staggering.",
     ALLPY + " " + ALLC, [("returned wavefields contain the full state", "scalar.py"), ("parity of buffer swapping", "scalar.c")],
     ["concatenated receiver data", "final wavefields", "accumulated gradients"])
prop("C07", "How snapshots are stored does not change results",
     "Wavefields, receiver data and gradients are the same whether the data needed for the gradient are kept in device memory, host memory or on disk, and with any storage chunking the library chooses; "
     "with compression, outputs are unchanged and gradients differ only by the quantisation error of the stored quantities.",
     ["configurations", "inputs"], "All storage modes crossed with compression, propagators, dimensions, precisions, batching, sampling intervals and subsets of inputs requiring gradients; compressed fields of any magnitude.",
     "The tests compare modes for one configuration per propagator; offsets into host/disk buffers depend on shots, steps, intervals and precision.",
     ALLPY + " backend_utils.py simple_compress.c simple_compress.h storage_utils.c " + ALLC,
     [("storage allocation and modes", "backend_utils.py"), ("quantisation", "simple_compress.c"), ("file offsets", "storage_utils.c")],
     ["outputs and gradients per mode"])
prop("C08", "Shots are independent, and ignored or absent entries have no effect",
     "Each shot of a call gives the same data, wavefields and gradients as if it were propagated alone (shared-model gradients add up), shots may be reordered, a batched model acts as one model per shot, "
     "and sources or receivers that are marked ignored, have zero amplitude or are absent do not influence anything (ignored receivers record zeros).",
     ["inputs", "configurations"], "Any number of shots, any permutation and grouping, any mixture of batched and shared models, any pattern of ignored locations, sources and receivers listed in any order.",
     "Tests use one or two shots and fixed ignore patterns; cross-talk needs particular batching, ordering or ignore combinations.",
     ALLPY + " common.py " + ALLC, [("shot strides and batched model flags", "scalar.c"), ("ignored locations", "common.py")],
     ["per-shot outputs and gradients"])
prop("C09", "Restricting the simulated area equals simulating the restricted model",
     "Requesting an area around the sources and receivers, or an origin through initial wavefields, gives the same outputs as passing the correspondingly cropped models with shifted locations, gradients land on the cells that were used and are zero elsewhere, "
     "and the area used is exactly the documented one (padded extent of non-ignored locations, clipped to the model).",
     ["inputs", "configurations"], "All per-side pads including unlimited ones and zero, all origins, all location sets including ignored ones, all propagators and dimensions.",
     "Tests check a few pads by extracting models; interactions with ignored locations, batched models, per-side settings and staggering are not reached.",
     "common.py " + ALLPY, [("area selection and padding", "common.py")], ["outputs", "model gradients"])
prop("C10", "Callbacks observe and steer the simulation faithfully",
     "Forward and backward callbacks are invoked at exactly the documented steps in order, with the current time step, and the wavefields, models and gradients they are given under each name are the live quantities of that name at that step in each requested view; "
     "a callback that changes nothing does not affect results, and a change it writes to a wavefield takes effect from that step.",
     ["histories", "configurations"], "All callback frequencies, number of steps, propagators, dimensions, views (full, pml, inner), batch sizes, step ratios; reading and writing callbacks.",
     "Tests check the number of calls and a few names; whether each name and view gives the right data at each step needs an independent trajectory.",
     "common.py " + ALLPY, [("callback state and views", "common.py"), ("chunked calls of the kernels", "scalar.py")],
     ["callback arguments at every call", "results with and without callbacks"])
prop("C11", "Internal time stepping always satisfies the CFL limit and resamples exactly",
     "For any time step, grid spacing and maximum speed, the internal time step satisfies the documented CFL condition, divides the given one by the smallest sufficient integer, preserves its sign and warns when documented; "
     "resampling up and down by that integer reproduces band-limited signals, keeps their length, timing and amplitude, and applies requested tapers and padding as documented.",
     ["inputs"], "All positive and negative time steps, spacings, speeds (including values on the boundary between two ratios), signal lengths, ratios, tapering and padding options.",
     "Tests check a few ratios and one resampling round trip; boundary rounding, odd lengths and Nyquist handling are not covered.",
     "common.py " + ALLPY, [("CFL condition", "common.py"), ("Fourier resampling", "common.py")], ["step ratio", "resampled signals", "receiver data"])
prop("C12", "Calls have no side effects and no hidden state",
     "A call never modifies its inputs, its outputs share no memory with its inputs or with other calls, global state (random generators, default settings, threads, working files) is left alone, and repeating a call, whatever calls, gradients or threads ran before, between or concurrently, "
     "gives identical results.",
     ["histories", "schedules"], "All sequences of forward, backward and repeated-backward calls on several graphs in any order, from one or several Python threads.",
     "Tests run each call once in isolation; stale buffers, caches and in-place changes only show in specific sequences.",
     ALLPY + " common.py backend_utils.py location_interpolation.py", [("fresh state per call", "scalar.py"), ("cached interpolation weights", "location_interpolation.py")],
     ["inputs before and after", "results over histories"])
prop("C13", "The propagators keep the symmetries of the wave equations",
     "Outputs are linear in source amplitudes and initial wavefields; mirroring or transposing axes of a problem mirrors or transposes the result; a problem that does not vary along an axis reduces to the lower-dimensional one; "
     "exchanging source and receiver gives the same recording; and rescaling units of length and time rescales the results accordingly.",
     ["inputs", "configurations"], "All propagators, orders, models, PML widths and domains, and all axis permutations and reflections.",
     "These are relations between pairs of runs that example-based tests do not form; an error in a single axis, side or off-diagonal term breaks them.",
     ALLPY + " " + ALLC, [("per-axis stencils and PML", "scalar.c"), ("staggered stencils", "elastic.c")], ["pairs of related runs"])
prop("C14", "Off-grid locations are interpolated exactly as Hicks' method prescribes",
     "For every real location, half-width and set of free surfaces, sources are spread to and receivers gathered from the documented Kaiser-windowed sinc weights (folded antisymmetrically at free surfaces), each shot using its own locations, as differentiable linear operations that are adjoint to each other; "
     "locations on grid points are left unchanged and results do not depend on previous uses of the interpolator.",
     ["inputs", "histories"], "All locations (including on and near edges, repeated and on-grid in some dimensions), half-widths, shots, free-surface combinations, call sequences.",
     "Tests use a few locations; rounding of particular fractions, folding at each side, deduplication and padding of ragged shots need many.",
     "location_interpolation.py", [("Hicks weights and location table", "location_interpolation.py")], ["interpolated locations, source amplitudes and receiver data"])
prop("C15", "Invalid requests are rejected rather than producing wrong results",
     "A request that violates a documented requirement (shapes, dimensions, counts, types, devices, ranges of options, finite whole-number locations inside the domain and without duplicates, unsupported options) raises a clear Python exception before any propagation, never crashes and never returns numbers; valid requests are never rejected.",
     ["inputs"], "All single and combined corruptions of valid requests to every public function, over propagators, dimensions and arguments.",
     "Tests try one corruption per argument at most; combinations over propagators, dimensions and argument positions are many.",
     "common.py backend_utils.py location_interpolation.py wavelets.py " + ALLPY, [("argument validation", "common.py")], ["exception or result of each corrupted request"])
prop("C16", "Simulations remain stable, absorb at PML edges and reverse in time",
     "For every accepted problem with a maximum speed at least that of the model: without a PML the discrete energy of the source-free wavefield is positive and constant, so that it stays bounded over arbitrarily many steps, and the propagation can be run backwards to recover the initial state; with a PML of ordinary width (eight or more cells) around a medium without free surfaces the wavefields do not grow, and waves leaving through it are absorbed to a small fraction.",
     ["inputs", "histories"], "Random heterogeneous media with strong contrasts, all orders, dimensions, step ratios, PML widths (per side), long runs; all initial states.",
     "Tests run short, smooth cases; late-time growth and mis-set PML sides only show in long runs with contrasts.",
     "common.py regular_grid.py staggered_grid.py " + ALLPY + " " + ALLC, [("CFL constant", "common.py"), ("PML profiles", "common.py")], ["wavefield norms over time", "recovered initial states"])
prop("C17", "Born modelling is the exact linearisation of scalar modelling",
     "For every problem with a scatter model that vanishes on the cells next to a PML (where the scatter is zero but the velocity continues), the background output of Born propagation equals scalar propagation, and the scattered output equals the directional derivative of scalar propagation with respect to velocity along the scatter model; it is linear in the scatter model, zero for zero scatter, and its gradient with respect to scatter equals the scalar velocity gradient with matching residuals.",
     ["inputs", "configurations"], "All models, scatter, sources, receivers, orders, dimensions, PML, batching and step ratios.",
     "Tests compare with finite differences for one or two models; PML, order and batching dependent terms of the scattered source are not separated.",
     "scalar_born.py scalar_born.c scalar.py scalar.c", [("scattering source term", "scalar_born.c")], ["Born outputs and gradients vs scalar runs"])
prop("C18", "Different propagators agree where they model the same physics",
     "With constant density the acoustic propagator approximates the scalar one and with zero shear modulus the elastic propagator reproduces the acoustic one, in data and gradients; a one-dimensional elastic problem equals the acoustic problem of the same P speed and density.",
     ["inputs", "configurations"], "All velocity/density models, orders, dimensions, source and receiver types, PML widths for the exact relations (elastic/acoustic); resolved wavelengths for the approximate one.",
     "No test compares propagators with one another over such inputs.",
     "acoustic.py elastic.py scalar.py acoustic.c elastic.c scalar.c staggered_grid.py", [("staggered parameter averaging", "elastic.py"), ("source and receiver scaling", "acoustic.py")], ["outputs of paired propagators"])
prop("C19", "All interfaces and backends give the same results",
     "The Module classes give the same results as the functions for the same arguments, honour their settings at construction and call, and register models as parameters with the requested gradient flags; the Python (eager and compiled-by-torch) backends give the same outputs and gradients as the native backend.",
     ["inputs", "configurations"], "All propagators, dimensions, arguments in positional or keyword form, and all problems supported by the Python backends.",
     "Tests instantiate few combinations; positional order over 1-3 dimensions and seldom-used arguments are untested, and the backends are compared on few problems.",
     ALLPY + " backend_utils.py", [("Module forward", "elastic.py"), ("python backend loops", "scalar.py")], ["outputs and gradients per interface"])
prop("C20", "Disk storage is private, complete and cleaned up",
     "When snapshots go to disk, each call uses its own files under the requested directory only, concurrent and interleaved calls never see each other's data, repeated backward passes keep working while the graph is alive, and once the graph is gone no file or directory of it remains, whether or not backward ran and also after errors.",
     ["histories", "schedules", "crash_points"], "All interleavings of creation, backward, repetition and destruction of several graphs, in several threads and processes sharing a directory, including exceptions in callbacks.",
     "One test checks one run; leaks and collisions need several graphs alive, out-of-order destruction or exceptions.",
     "backend_utils.py common.py storage_utils.c " + ALLPY, [("temporary storage objects", "backend_utils.py"), ("file reads and writes", "storage_utils.c")], ["directory listings over time", "gradients", "open file descriptors"])
prop("C21", "Storage faults raise errors instead of giving wrong gradients",
     "If a snapshot file cannot be created, written completely or read back completely, the forward or backward call raises an exception; the process never crashes and no gradient computed from missing or truncated snapshots is ever returned.",
     ["fault_sequences"], "A fault (no space, no descriptors, missing directory or file, truncated file, refused permission) at any file, byte offset and step, for every propagator.",
     "No test injects I/O faults.",
     "storage_utils.c storage_utils.h backend_utils.py common_cpu.h " + ALLC, [("file opening, writing and reading", "storage_utils.c"), ("backend error codes", "scalar.py")], ["exception or gradients after an injected fault"])
prop("C22", "Propagators compose with PyTorch like any other operator",
     "Results and gradients are unaffected by the memory layout of inputs, by repeated backward through a retained graph, by gradient accumulation, by activation checkpointing, by producing or consuming the tensors with other differentiable operations and by grad-disabled or inference contexts, "
     "and the Python backend supports forward-mode and vmapped derivatives consistent with reverse mode.",
     ["programs", "configurations"], "Compositions of PyTorch operations before and after any propagator, layouts (strided, expanded, transposed, sliced), autograd modes and subsets of inputs and outputs.",
     "Tests call propagators on fresh contiguous tensors in default modes.",
     ALLPY + " common.py backend_utils.py", [("autograd Functions", "scalar.py"), ("contiguity before kernels", "common.py")], ["outputs and gradients vs plain composition"])
prop("C23", "Wavelet, parameter conversion and signal helpers compute their formulas",
     "The Ricker wavelet, the conversions between velocity/density, Lamé and buoyancy parameters, the cosine taper, and the up/downsampling helpers return, for every valid input, the documented values, shape and dtype, are mutually inverse where documented, and are differentiable with correct gradients.",
     ["inputs"], "All lengths, frequencies, peak times, dtypes; all parameter fields including fluids and voids; all taper lengths, ratios, shifts and paddings.",
     "Tests check a few values.",
     "wavelets.py common.py __init__.py", [("ricker", "wavelets.py"), ("parameter conversion", "common.py"), ("resampling helpers", "common.py")], ["helper outputs and gradients"])
prop("C24", "Solutions converge to the continuous wave equation at the nominal accuracy",
     "Under grid refinement the propagated wave converges to the analytic solution, higher accuracy settings give a smaller spatial error at the nominal order, travel times and amplitudes from sources and receivers of every type match the continuous equations, and single precision agrees with double precision to rounding.",
     ["inputs", "configurations"], "All propagators, orders, dimensions, source and receiver types and plane/point wave problems with an analytic solution.",
     "Tests check loose bounds at one resolution; a wrong coefficient or half-cell or half-step shift can stay inside them.",
     "regular_grid.h staggered_grid.h regular_grid.py staggered_grid.py " + ALLPY + " " + ALLC, [("finite difference coefficients", "regular_grid.h"), ("staggered coefficients", "staggered_grid.h")], ["error against analytic solutions over refinements"])
prop("C25", "Memory and disk use follow the storage options, and all of it is released",
     "The memory and files a native call holds grow with the number of time steps only by its source and receiver samples and by the snapshots that its options and the requested model gradients call for: "
     "at most one wavefield per needed quantity, shot and gradient sampling interval (a byte per sample plus block headers when compressed), in memory with device and cpu storage, in files with disk storage, nowhere with none, "
     "and none at all when no model requires a gradient; callbacks and repeated or failed calls do not add to it, and once inputs and results are dropped all of it is released.",
     ["inputs", "configurations", "histories"], "All propagators, dimensions, storage modes, compression, sampling intervals, subsets of inputs requiring gradients, callbacks, forward, backward and second backward passes, and failed calls.",
     "Tests look at values only; storing too much, keeping two copies or keeping them alive changes no value.",
     "common.py storage_utils.c " + ALLPY, [("snapshot allocation", "common.py"), ("what is stored for which gradients", "elastic.py")], ["heap bytes live and at peak", "file sizes"])
prop("C26", "Warnings appear exactly when a request is likely inaccurate",
     "A request that is accepted but doubtful is announced: a warning is issued if and only if pml_freq is not given (and its documented default is then used), exceeds the Nyquist frequency, leaves fewer than six cells of the largest spacing per shortest wavelength "
     "(slowest non-zero speed anywhere in the models), max_vel is below the fastest speed of the models, twenty or more internal steps per step are needed, or the simulated area is inferred from wavefields without an origin.",
     ["inputs", "configurations"], "All propagators, dimensions, backends, modules, models (batched, with slow, fluid, void or negative cells), spacings, frequencies, time steps and speeds on both sides of each limit.",
     "Tests provoke a warning or two on one model; which cell, shot, dimension or speed decides is not sampled.",
     "common.py " + ALLPY, [("points per wavelength check", "common.py"), ("slowest and fastest speeds", "elastic.py")], ["warnings recorded per request"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
