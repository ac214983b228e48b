"""What each property's check runs, and what it must have observed to count."""

_KERNEL_RULE = (
    "A case is one call of a generated kernel in a randomised history of interleaved live kernels "
    "(option set, precision, thread count, fixed/free size, shape, memory layout, aliasing, input "
    "style and scalars drawn from the seed). Non-trivial: the written region is not empty, the "
    "expected contribution is not all zero and the call changed the output. Distinct: by kernel, "
    "shape, scalars and a digest of all input arrays.")

TABLE = {}

for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    TABLE[_p] = {
        "module": "stencils", "workers": 8, "rule": _KERNEL_RULE,
        "technique": "runtime monitoring: online value and frame monitors on every kernel call "
                     "of randomised interleaved histories, plus algebraic invariants",
        "level_note": "Held on the executions listed in the evidence, in the library's own build "
                      "flags; trusts the independent NumPy models in harness/registry.py and the "
                      "rounding bound of 64 eps times the magnitudes involved.",
        "reach": {"kernel_calls": 60, "elements_compared": 10000, "frame_checks": 100},
        "assumptions": [
            "rounding bound: 64 eps times the sum of magnitudes entering each value",
        ],
    }

TABLE["C11"] = {
    "module": "history", "workers": 8,
    "rule": "A case is one kernel call in a world of many live kernels generated in random order "
            "(some never called), either a probe repeated with the inputs of its single-kernel "
            "reference world but other garbage in outputs and scratch, or a random call. "
            "Non-trivial: the call changed its output and the expected value is not all zero. "
            "Distinct: by kernel, inputs digest and, for probes, the number of earlier calls.",
    "technique": "runtime monitoring: history-replay monitor (probe results against a fresh-import "
                 "reference world) and bit-exact frame/guard monitors around every call",
    "level_note": "Held on the observed histories. Detects stray writes inside the parent buffers of "
                  "every array (canary guards, strided parents), not in unrelated heap memory (C12).",
    "reach": {"history_probes": 100, "frame_checks": 500, "reference_worlds": 30},
}

TABLE["C12"] = {
    "module": "memory", "workers": 8, "mode": "asan",
    "rule": "A case is one kernel call with every array an exactly sized heap block of its own, with "
            "the sanitizer log read afterwards. Non-trivial: more than one cell. Distinct: by kernel "
            "instance, shape and input digest.",
    "technique": "sanitizers: AddressSanitizer + UBSan builds of every generated kernel under a "
                 "shape/option/thread workload, with an out-of-bounds canary per process",
    "level_note": "No report on the executions made; red zones of 128 bytes, so a far jump into "
                  "another live block could go unseen. Kernels are compiled at -O1 with sanitizers "
                  "instead of the library's -Ofast.",
    "reach": {"sanitizer_log_checks": 300, "canary_reports": 1},
}

TABLE["C13"] = {
    "module": "races", "workers": 8,
    "rule": "A case is one library call (kernel, time step, filter, solve) recorded and replayed "
            "under ThreadSanitizer, or one call compared with its serial twin on the same inputs. "
            "Non-trivial: more than two cells, or the call changed its output. Distinct: by kernel "
            "instance, thread count, shape and input digest.",
    "technique": "sanitizers: ThreadSanitizer on replayed kernel invocations (generated code, array "
                 "layout and aliasing recorded from the running library), plus a differential "
                 "monitor over thread counts",
    "level_note": "No race on the replayed regions; races inside FFTW/SciPy are out of scope. "
                  "OpenMP is provided by a pthread shim so the sanitizer sees its synchronisation.",
    "reach": {"parallel_regions_run_under_tsan": 300, "canary_reports": 1,
              "thread_comparisons": 150},
}

TABLE["C14"] = {
    "module": "options", "workers": 8,
    "rule": "A case is either one set of twins (the same operation generated fixed/free, in both "
            "precisions, called on contiguous and strided arrays) on identical data, or one call "
            "with an array of another size or precision that must raise. Non-trivial: the call "
            "changed its output and the expected value is not all zero; every rejection. Distinct: "
            "by kernel, shape and input digest, or by kernel and kind of mismatch.",
    "technique": "runtime monitoring: differential monitor over generation options on identical "
                 "data, plus a rejection monitor on mismatched arrays",
    "level_note": "Held on the executions listed; agreement is up to 64 eps of the magnitudes "
                  "entering each value, at single precision between precisions.",
    "reach": {"twin_comparisons": 500, "rejections_observed": 500,
              "double_precision_twin_comparisons": 200},
}

TABLE["C15"] = {
    "module": "solvers", "workers": 8,
    "rule": "A case is one solve on one of several live solver objects (grid shape, domain size, "
            "threads, layouts, in-place, vector or scalar, right-hand side drawn from the seed). "
            "Non-trivial: the right-hand side is not zero. Distinct: by solver, position in its "
            "history and right-hand side digest.",
    "technique": "runtime monitoring: every solve in interleaved histories judged against the "
                 "direct convolution sum, with input/guard monitors and repeat probes",
    "level_note": "Held on the solves listed; grids up to about 1400 cells, error bound from the "
                  "norms of Green's function and right-hand side times eps.",
    "reach": {"solves": 200, "repeated_solves": 30, "inplace_solves": 20},
}

TABLE["C16"] = {
    "module": "solvers", "workers": 8,
    "rule": "A case is one solve on one of several live solver objects. Non-trivial: the right-hand "
            "side is not zero. Distinct: by solver, position in its history, right-hand side digest.",
    "technique": "runtime monitoring: every solve judged against closed-form cosine modes, the "
                 "defining equation and the zero-mean condition, with frame and repeat monitors",
    "level_note": "Held on the solves listed; error bound eps n^2 relative (single precision: about "
                  "1e-3 on long axes), axes of 2 and more cells.",
    "reach": {"solves": 400, "repeated_solves": 80},
}

TABLE["C17"] = {
    "module": "solvers", "workers": 8,
    "rule": "A case is one transform (forward and backward by plan, combined kernel, scipy kernel, or "
            "backward alone) on one of five live plans. Non-trivial: the field is not zero. Distinct: "
            "by plan, path and field digest.",
    "technique": "runtime monitoring: every transform judged against the DFT matrix definition, "
                 "round trip and input-unmodified monitors, plans reused and interleaved",
    "level_note": "Held on the transforms listed; arrays aligned as the plans require; the spectrum "
                  "handed to a backward plan may be destroyed (FFTW c2r).",
    "reach": {"transforms": 800},
}

TABLE["C18"] = {
    "module": "files", "workers": 8,
    "rule": "A case is one save or load in a random history over two IO objects and restarted "
            "copies (field sets, shapes, dtypes, layouts, names, bit patterns, times drawn from the "
            "seed). Non-trivial: something is registered. Distinct: by operation, file and digest "
            "of the registered values.",
    "technique": "runtime monitoring: bit-exact oracle over save/load histories, with guard memory "
                 "around every registered array and in-place checks",
    "level_note": "Held on the histories listed. Grid names used: identifiers other than 'eulerian'; "
                  "HDF5 itself is trusted.",
    "reach": {"saves": 300, "loads": 300, "second_generation_roundtrips": 20},
}

TABLE["C19"] = {
    "module": "files", "workers": 8,
    "rule": "A case is one save into a directory whose files are then read with h5py and an XML "
            "parser. Non-trivial: a field or grid is registered. Distinct: by registration and value "
            "digest.",
    "technique": "runtime monitoring: independent reader of every HDF5 and XDMF file written, "
                 "cross-checked against the registered arrays and each other",
    "level_note": "Held on the files listed; origin and spacing compared to the number of digits the "
                  "precision asks for; the XDMF Precision attribute is not judged.",
    "reach": {"saves": 300, "xdmf_files": 500, "xdmf_attributes": 1000},
}

TABLE["C20"] = {
    "module": "files", "workers": 8,
    "rule": "A case is one call that must raise (a mismatched registration, file, or construction "
            "option), each next to accepted controls. Every rejection is non-trivial. Distinct: by "
            "kind of call and offending value.",
    "technique": "runtime monitoring: rejection monitor over mismatching registrations, tampered "
                 "files and options, with save/load controls after every rejected registration",
    "level_note": "Held on the rejections listed; any exception counts as a rejection.",
    "reach": {"rejections_observed": 1500, "still_working_probes": 50, "accepted_controls": 50},
}

_IB = ("Held on the executions listed, of the repository's functions as plain Python (numba is not "
       "installed, so what numba's compiler and its cache do is out of reach).")
_NUMBA = ["numba's njit preserves the semantics of the decorated functions up to fast-math rounding"]

TABLE["C21"] = {
    "module": "ib", "workers": 8,
    "rule": "A case is one marker set through the support and weight kernels of one of four live "
            "communicators with reused, dirty buffers. Non-trivial: all. Distinct: by kernel type, "
            "spacing and positions.",
    "technique": "runtime monitoring: every support and weight judged against the closed-form delta "
                 "function and its moments, with frame and guard monitors",
    "level_note": _IB, "assumptions": _NUMBA,
    "reach": {"support_calls": 800, "moments_judged": 2000, "markers_on_grid_lines": 200,
              "mirrored_pairs": 40},
}

TABLE["C22"] = {
    "module": "ib", "workers": 8,
    "rule": "A case is one interpolation or spreading call (or a pair of them) on one of four live "
            "communicators. Non-trivial: the values moved are not all zero. Distinct: by fields, "
            "weights and positions.",
    "technique": "runtime monitoring: every transfer judged against dense delta-function sums, with "
                 "conservation, adjointness, exactness and frame monitors",
    "level_note": _IB, "assumptions": _NUMBA,
    "reach": {"interpolations": 800, "spreads": 800, "adjoint_products": 300, "linear_fields": 50,
              "constant_fields": 80, "cells_outside_supports": 10000},
}

TABLE["C23"] = {
    "module": "ib", "workers": 8,
    "rule": "A case is one interaction or time-step call in a random history over three live forcing "
            "objects. Non-trivial: the force (or the mismatch integrated) is not zero. Distinct: by "
            "positions, velocities and resulting fields.",
    "technique": "runtime monitoring: an online model of the feedback law (integral of the mismatch, "
                 "force, spread forcing, time) stepped along with every call",
    "level_note": _IB, "assumptions": _NUMBA,
    "reach": {"interactions": 800, "time_steps": 600, "bystander_checks": 2000},
}

TABLE["C24"] = {
    "module": "ib", "workers": 8,
    "rule": "A case is one interaction call in a random history over three live forcing objects. "
            "Non-trivial: the flux is not zero. Distinct: by positions, velocities and results.",
    "technique": "runtime monitoring: every interaction judged against the implicit blend and dense "
                 "spreading sums, with bit-exact repeat probes and bystander checks",
    "level_note": _IB, "assumptions": _NUMBA,
    "reach": {"interactions": 1000, "repeat_probes": 100, "bystander_checks": 2000},
}

TABLE["C25"] = {
    "module": "runs", "workers": 8,
    "rule": "A case is one time step of a composed simulation (Poisson solve, curl, free stream, body "
            "feedback, stretching and filtering in 3D, advection, diffusion, boundary damping). Non-trivial: the vorticity is not "
            "zero. Distinct: by step number, vorticity and velocity.",
    "technique": "runtime monitoring: conservation, maximum-principle and divergence monitors after "
                 "every stage of long composed runs, and a differential monitor against a twin "
                 "restarted from a saved file on kernels and buffers of its own",
    "level_note": "Held on the runs listed. The twin is handed the run's velocity after comparison, so "
                  "that upwind switches agree; circulation that leaves through the outer four "
                  "cells is allowed for.",
    "reach": {"steps": 250, "circulation_checks": 1200, "restarts": 15, "restart_comparisons": 400,
              "divergence_cells": 100000,
              "filter_stages": 10, "damping_stages": 50},
}

TABLE["C26"] = {
    "module": "resources", "workers": 8,
    "rule": "A case is one stretch of repeated use (at least 32 operations after a warm-up) of one "
            "object or of one way of making objects, with a census before and after. Non-trivial: "
            "every stretch. Distinct: by operation and configuration.",
    "technique": "runtime monitoring: process-wide resource censuses (live arrays and bytes, weak "
                 "references to every array handed over, descriptors, threads, files left open) "
                 "around stretches of repeated use",
    "level_note": "Held on the stretches made. Python memory that is not in arrays is not counted; "
                  "caches of up to a dozen arrays are allowed.",
    "reach": {"repeated_calls": 5000, "censuses": 200, "arrays_followed": 10000,
              "closed_file_checks": 500, "refused_loads": 100, "objects_constructed": 500},
    "assumptions": [
        "the numba decorator is a stand-in, as for C21-C24",
    ],
}
