"""What each check builds, how long it searches, and what its evidence states."""

VARIANTS = {
    "a": "clang -O1 -march=x86-64-v3 with xsimd (SIMD and half precision paths)",
    "b": "clang -O1 -march=x86-64 without xsimd (portable fallback paths)",
}

PYTHON_VARIANTS = dict(VARIANTS, p="CPython running the package's own code (extra/python/src/neo), switched at every line")
# the platform configurations of C23
VENDOR_VARIANTS = {
    "a": "clang -O1 -march=x86-64-v3 with the Apple configuration: Accelerate (vDSP) and cblas",
    "b": "clang -O1 -march=x86-64 with the Intel configuration: IPP and MKL (DFTI, cblas)",
    "c": "clang -O1 -march=x86-64-v3 with xsimd and MKL (DFTI, cblas) alone",
}

_ENG = ["neo convolution engines (overlap-add, overlap-save, upola v1/v2, split, sparse, f16 and fixed-point delay lines)",
        "neo transforms, containers and algorithms underneath them"]
_XF = ["neo library code under /repo/src, unmodified"]
_STUB = ["heap: counted and failed on demand by the simulator (malloc seam)",
         "mdspan/mdarray: bounds-checked stand-in headers (the upstream dependency is not installed here)"]
_SCHED = ["threads: real threads, one runs at a time, switched by the simulator at instrumented code edges"]
_ASSUME = ["inputs respect documented preconditions: power-of-two partition size of at least 2, views of matching extents",
           "accuracy is judged with a rounding-error bound, not bit-exactly",
           "the portable code is checked here; the IPP, MKL and Accelerate configurations are checked by C23"]

_CLI_R = ["extra/cli/src/convolver.cpp and wav.hpp and the library underneath, unmodified (main is run as a function)"]
_CLI_S = _STUB + ["dr_wav: stand-in over a simulated disk (failing opens, short reads, damaged headers, refused and full output)",
                  "fmt: output is recorded, not printed", "clock: simulated, jumps by seeded amounts", "process exit: an escaping exception counts as failure"]
_CLI_A = ["the file format layer (dr_wav) honours its documented contract", "accuracy is judged with a rounding-error bound, not bit-exactly"]
_PLUG_R = ["extra/plugin/src/dsp/*, PerceptualConvolution.cpp, PluginParameter.cpp, PluginProcessor.cpp and the library underneath, unmodified"]
_PLUG_S = _STUB + _SCHED + ["JUCE: stand-in for AudioBuffer, dsp blocks, windows, files, readers, writers and resampler on a simulated disk",
                            "host: seeded sequence of prepare, process, reset and load calls"]
_PLUG_A = ["JUCE classes honour their documented contract", "the host keeps its announced maximum block size of at least 2 and calls from one thread per instance",
           "accuracy is judged with a rounding-error bound, not bit-exactly"]

_Q = dict(quick_s=24, thorough_s=900)


def P(worker, nontrivial, rule, real=_ENG, stub=_STUB, assume=_ASSUME, **kw):
    d = dict(worker=worker, nontrivial=nontrivial, rule=rule, real=real, stub=stub, assume=assume, **_Q)
    d.update(kw)
    return d


PROPS = {
    "C01": P("conv", ["loads", "calls"],
             "seeded histories: engine kind, partition, taps, views, block sequence; non-trivial: a filter was loaded and at least one block processed"),
    "C02": P("conv", ["loads", "probe_partial_block"],
             "seeded call-size schedules; non-trivial: some call left a partly filled block behind"),
    "C03": P("conv", ["reloads", "calls"],
             "seeded histories with several filter loads; non-trivial: a filter was replaced and blocks were processed"),
    "C04": P("conv", ["fault_alloc_load", "calls"],
             "seeded histories with failing allocations inside filter loads; non-trivial: a load failed and blocks were processed"),
    "C05": P("mix", ["fault_heap_exhausted_calls"],
             "seeded histories in which the heap is exhausted during every processing call; non-trivial: such a call happened"),
    "C06": P("mix", ["preemptions", "calls"],
             "seeded programs of 2-4 threads with their own objects and seeded preemption points; non-trivial: a thread was preempted inside library code",
             stub=_STUB + _SCHED),
    "C07": P("conv", ["copies", "calls"],
             "seeded histories of copies, moves and assignments between streams; non-trivial: a copy happened and blocks were processed"),
    "C08": P("mix", ["fault_corrupt_sample|fault_corrupt_input", "probe_recovered_calls"],
             "seeded histories with NaN/infinite samples; non-trivial: corruption happened and blocks were checked after recovery"),
    "C09": P("misc", ["blocks"],
             "seeded histories of raw overlap stages with arbitrary block and filter sizes; non-trivial: blocks were processed", real=_XF),
    "C10": P("plan", ["calls"],
             "seeded lives of transform plans: reuse in both directions, copies, moves, failed copies, corrupted input; non-trivial: at least one checked call",
             real=_XF),
    "C11": P("misc", ["calls"],
             "seeded reuse of one-shot convolvers and of the free functions under failing allocations; non-trivial: at least one checked call", real=_XF),
    "C12": P("misc", ["inserts|probe_insert_existing|probe_multiply_add"],
             "seeded insert and multiply-add histories with failing allocations; non-trivial: at least one element written or used", real=_XF),
    "C13": P("misc", ["inserts|calls"],
             "seeded insert histories of delay lines and their index; non-trivial: at least one insert", real=_XF),
    "C14": P("misc", ["calls"],
             "seeded signals, frames and partitions with failing allocations; non-trivial: at least one checked call", real=_XF),
    "C15": P("cli", ["probe_success"],
             "seeded disks with signal and filter files, several runs of the tool on them; non-trivial: at least one run succeeded and its output was compared",
             real=_CLI_R, stub=_CLI_S, assume=_CLI_A),
    "C16": P("cli", ["fault_open_read|fault_short_read|fault_bad_header|fault_missing_file|fault_open_write|fault_disk_full|fault_alloc|probe_unusable_input"],
             "seeded disks with failing opens, short reads, damaged headers, refused or full output, failing allocations and clock jumps; non-trivial: a fault took effect or an input was unusable",
             real=_CLI_R, stub=_CLI_S, assume=_CLI_A),
    "C17": P("py", ["calls|probe_raised"],
             "seeded programs of 1-4 interpreter threads calling the module with arbitrary array layouts and failing allocations; non-trivial: a call returned or raised",
             real=["extra/python/src/main.cpp and the library underneath, unmodified", "extra/python/src/neo/*.py, unmodified, in CPython"],
             stub=_STUB + _SCHED + ["pybind11: stand-in with reference-counted arrays, buffer and stride semantics and an owner-checked interpreter lock",
                                    "Python interpreter: not run for the compiled module; calls are dispatched by name with native arguments",
                                    "compiled module: modelled with NumPy under the package's Python code, its calls fail on demand"],
             variants=["a", "b", "p"], variant_text=PYTHON_VARIANTS),
    "C18": P("plug", ["blocks", "prepares"],
             "seeded host sessions: prepare, block sizes, loads, several instances on several threads, heap exhausted while processing; non-trivial: prepared and at least one block processed",
             real=_PLUG_R, stub=_PLUG_S, assume=_PLUG_A),
    "C19": P("plug", ["blocks", "resets|prepares|fault_open|fault_read|fault_bad_header|fault_empty_file"],
             "seeded host sessions with repeated prepare, reset and loads, files failing at every load; non-trivial: audio processed around a lifecycle call or failed load",
             real=_PLUG_R, stub=_PLUG_S, assume=_PLUG_A),
    "C20": P("plug", ["dense_renders|sparse_renders|block_renders|files"],
             "seeded renders and file round trips on several threads with file failures; non-trivial: at least one render or round trip was compared",
             real=_PLUG_R, stub=_PLUG_S, assume=_PLUG_A),
    "C21": P("plug", ["saves|restores", "sets|restores|fault_state_foreign|fault_state_cut|fault_state_garbage|fault_state_empty|timer_ticks"],
             "seeded sessions of parameter changes, timer ticks, saves, restores, damaged data and audio, on one or several threads; non-trivial: a state was saved or restored around a change",
             real=_PLUG_R, stub=_PLUG_S + ["JUCE value trees, parameters and parameter state: stand-in written after JUCE's sources, timer ticks are simulated events"], assume=_PLUG_A),
    "C22": P("gui", ["editors_opened", "renders|choices|looks"],
             "seeded user sessions with the editor: file choices, settings, renders, preparations, opening and closing, with the render thread preempted against the message thread and failing files and disks; non-trivial: something was chosen, rendered or looked at in an open editor",
             real=["extra/plugin/src, all of it (processor, parameters, editor, tabs, dsp), and the library underneath, unmodified"],
             stub=_PLUG_S + ["JUCE components, values, file chooser, thread pool and message queue: stand-in written after JUCE's sources; every message, timer tick and click is a simulated event",
                             "juce::dsp::Convolution: direct convolution"],
             assume=["JUCE classes honour their documented contract", "one editor is open at a time and the host prepares on the message thread", "files chosen by the user do not change",
                     "a render ends within the time the thread pool grants at shutdown", "accuracy is judged with a rounding-error bound, not bit-exactly", "the sparse quality table (long-running measurement) is not run"]),
    "C23": P("vend", ["vendor_calls", "calls"],
             "seeded lives of plans, stages, convolvers and engines in the Apple and Intel configurations, on one to three threads, with failing library calls and allocations; non-trivial: the platform library was called and a result was checked",
             real=["src/neo in its Apple (Accelerate, cblas) and Intel (IPP, MKL) configurations, unmodified"],
             stub=_STUB + _SCHED + ["IPP, MKL DFTI, vDSP and cblas: stand-ins written after their documentation, computing naive transforms; every allocating call can fail and every handle and buffer is tracked until it is released"],
             assume=["the platform libraries honour their documented contract", "plans are moved, not copied, in these configurations",
                     "accuracy is judged with a rounding-error bound, not bit-exactly"],
             variants=["a", "b", "c"], variant_text=VENDOR_VARIANTS),
}

_TECH = {
    "C01": "seeded block histories against a direct-convolution model",
    "C02": "seeded call-size schedules against a stream model",
    "C03": "seeded load/process histories against a fresh-engine model",
    "C04": "allocation failures at seeded points inside filter loads, against an all-or-nothing model",
    "C05": "heap exhausted during seeded processing calls",
    "C06": "seeded preemptive thread interleavings at code-edge granularity against isolated results",
    "C07": "seeded fork/move/assign histories with failing copies against independent stream models",
    "C08": "seeded sample corruption with bounded recovery",
    "C09": "seeded stage histories against a direct-convolution model",
    "C10": "seeded plan lives with copies, failures and corruption against a naive transform",
    "C11": "seeded reuse histories with failing allocations against direct convolution",
    "C12": "seeded insert histories with failing allocations against a map model",
    "C13": "seeded write histories against an array model",
    "C14": "seeded signals and failing allocations against naive framing",
    "C15": "seeded disks and repeated runs of the tool against a direct-convolution model",
    "C16": "seeded file, disk, memory and clock faults against exit status and file system state",
    "C17": "seeded interpreter-thread interleavings, array layouts and failing allocations against naive formulas and a lock-ownership monitor",
    "C18": "seeded host block schedules and instance interleavings with the heap exhausted, against a delayed direct-convolution model",
    "C19": "seeded lifecycle histories with failing files against a fresh-instance model",
    "C20": "seeded renders, round trips and file faults on interleaved threads against naive models",
    "C21": "seeded sessions and interleavings of saves with parameter changes, timer ticks and damaged data against a value-history model",
    "C22": "seeded user sessions and message/render thread interleavings with file and disk faults, against a model of each started render and of the pictures shown",
    "C23": "seeded lives and thread interleavings with failing platform-library calls against naive transforms and a tracker of live library resources",
}
for _k, _v in _TECH.items():
    PROPS[_k]["technique"] = _v

_PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history it could depend on, so simulation has nothing to inject; "
NOT_APPLICABLE = {
    "C30": _PURE + "exhaustive or property-based input testing is the right tool",
    "C31": _PURE + "exhaustive input testing or proof is the right tool",
    "C32": _PURE + "input testing per instruction set is the right tool",
    "C33": _PURE + "property-based input testing is the right tool",
    "C34": _PURE + "input testing against the formulas is the right tool",
    "C35": _PURE + "property-based input testing is the right tool",
    "C36": _PURE + "input testing against the formulas is the right tool",
    "C37": _PURE + "exhaustive floating-point input testing is the right tool",
}
