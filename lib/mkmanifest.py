"""writes /verif/MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Exploration: no absence claim. Trusts the byte-wise model (checked against the published vectors at start-up), gcc/clang and this CPU."
C = {
 "C01": ("model-based differential property testing (generated inputs, operands steered through the model) + coverage-guided fuzzing (libFuzzer)", ""),
 "C02": ("model-based differential property testing (generated inputs, operands steered through the model) + coverage-guided fuzzing (libFuzzer)", ""),
 "C03": ("metamorphic stateful testing: generated cuttings of a stream against one update of the same bytes", "No model is involved in the metamorphic part."),
 "C04": ("stateful model-based testing of update histories + coverage-guided fuzzing (libFuzzer)", ""),
 "C05": ("model-based differential property testing (generated inputs, operands steered through the model) + coverage-guided fuzzing (libFuzzer)", ""),
 "C06": ("model-based differential property testing of the three AES-NI variants + coverage-guided fuzzing (libFuzzer)", ""),
 "C07": ("property testing of the dispatcher on generated processors and operating systems (CPUID and XGETBV trapped and answered), with an oracle for what each choice executes", "The processors are as the vendor manuals define the CPUID leaves that are asked."),
 "C08": ("fault-observing property testing: generated buffers between guard pages, read-only input, canaries, traps, emulated strict targets", "Stray writes into other valid memory of a native process are seen by canaries only; on emulated targets every write is seen."),
 "C09": ("metamorphic property testing: the same bytes, length and seed under changed addresses, neighbours, history, stack and registers", ""),
 "C10": ("generated inputs under byte-exact access monitoring (emulator, instrumented native builds, AddressSanitizer, valgrind)", "Instrumented builds see accesses as the compiler's middle end emits them."),
 "C11": ("generated inputs on an emulator that faults on misaligned accesses, and under -fsanitize=alignment", ""),
 "C12": ("configuration-covering differential testing: a random covering array over the tuning macros, each build against the model", "Configurations the toolchain cannot express are left out (see DESIGN.md)."),
 "C13": ("configuration-covering differential testing: a random covering array over disabled families, each build linked to a consumer and compared with the model", ""),
 "C14": ("differential property testing of cross-compiled code (MIPS, big/little endian, 32/64 bit) in an emulator, and of generic native builds", "Trusts the MIPS emulator of this framework."),
 "C15": ("schedule exploration by generated interruption points (single-stepped preemption, nested calls) and threads under ThreadSanitizer, with the sequential run as oracle", "Interruption at instruction boundaries of this build's code; threads only sample real schedules."),
 "C16": ("fault injection: generated and enumerated wrong hash functions under the library's own self-checks, with a model of what they must answer", "Assertions off, as the library is normally built."),
 "C17": ("metamorphic property testing: changes of generated single bits and of the length over several contexts", "A false alarm has a chance of at most 2^-192 per bit."),
 "C18": ("statistical property testing of generated key shapes (avalanche, bias, byte distribution) with confirmation on independent samples", "Statistical bounds: chance of a false alarm per run below 1e-9."),
 "C19": ("model-based testing with generated gigantic lengths and streams over aliased memory", ""),
 "C20": ("generated consumers (language, dialect, compiler, link mode, API subset) of generated packages, results compared with the model, symbol tables with the header", "The provided build files that run on Linux (Makefile, meson.build)."),
 "C21": ("stateful model-based testing of several contexts (copies, reuse, interleavings) at generated addresses", ""),
 "C22": ("differential testing over compilers, optimisation and sanitizer builds, and over randomly generated caller programs, against the byte-wise model", ""),
 "C23": ("property testing of calls made in generated machine states (registers, floating-point environment, errno), with the state after the call and the result in the usual state as oracle", "x86 only."),
}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "technique": C[p][0], "level": "exploration",
                 "level_note": (C[p][1] + " " + TRUST).strip()} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in C]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
