"""Which monitor runs decide which property."""
CARGO = ["cargo", "build", "--offline", "--locked", "--profile"]
BUILDS = {
    "native": dict(dir="native", cmd=CARGO + ["chk"], bin="chk/fhemon"),
    "tfhe": dict(dir="tfhe", cmd=CARGO + ["chk", "--features", "tfhe-ntt"], bin="chk/fhemon"),
    "release": dict(dir="native", cmd=CARGO + ["release"], bin="release/fhemon"),
    # /repo's execution-policy hook is compiled in
    "hooked": dict(dir="hooked", cmd=CARGO + ["chk"], bin="chk/fhemon", env={"RUSTFLAGS": "--cfg fhe_monitor"}),
    "hooked-tfhe": dict(dir="hooked-tfhe", cmd=CARGO + ["chk", "--features", "tfhe-ntt"], bin="chk/fhemon", env={"RUSTFLAGS": "--cfg fhe_monitor"}),
    # race detector, with the standard library instrumented, too
    "tsan": dict(dir="tsan", cmd=CARGO + ["tsan", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"], bin="x86_64-unknown-linux-gnu/tsan/fhemon", toolchain="nightly-x86_64-unknown-linux-gnu",
                 env={"RUSTFLAGS": "-Zsanitizer=thread"}, run_env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 second_deadlock_stack=1 report_signal_unsafe=0"}),
    # address sanitizer and the standard library's precondition checks, without
    # the library's own debug assertions
    "asan": dict(dir="asan", cmd=CARGO + ["tsan", "--target", "x86_64-unknown-linux-gnu"], bin="x86_64-unknown-linux-gnu/tsan/fhemon", toolchain="nightly-x86_64-unknown-linux-gnu",
                 env={"RUSTFLAGS": "-Zsanitizer=address -Zub-checks=yes"}, run_env={"ASAN_OPTIONS": "exitcode=67 detect_leaks=0 allocator_may_return_null=1 detect_stack_use_after_return=1"}),
    # undefined-behaviour interpreter
    "miri": dict(dir="miri", crate="miri", prepare="fastprime", cmd=["cargo", "miri", "run", "-q", "--offline", "--locked", "--profile", "tsan", "--"], build_args=["--nothing"],
                 toolchain="nightly-x86_64-unknown-linux-gnu", env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"}),
}


def both(q_native, q_tfhe, t_native=300, t_tfhe=200, **kw):
    return [dict(build="native", secs=(q_native, t_native), **kw),
            dict(build="tfhe", secs=(q_tfhe, t_tfhe), **kw)]


COMMON = ["the toolchain, num-bigint and the random generators used by the monitors are trusted",
          "held on the executions observed; nothing is claimed about executions not produced"]
CHECKS = {
    "C01": dict(parts=[dict(build="native", secs=(20, 400)), dict(build="release", secs=(10, 200))],
                technique="runtime monitoring: reference-model oracle (128-bit / big-integer) over edge-biased call streams, overflow traps armed"),
    "C02": dict(parts=both(15, 10),
                technique="runtime monitoring: definition-level transform evaluated at reference powers of psi, order/range/linearity monitors on forward, backward, lazy and variable-time paths of both backends"),
    "C03": dict(parts=both(20, 8),
                technique="runtime monitoring: big-integer CRT / rational-scaling oracle over boundary-biased residue streams"),
    "C04": dict(parts=both(20, 12),
                technique="runtime monitoring: lockstep shadow model (schoolbook negacyclic ring) over random operation histories"),
    "C05": dict(parts=both(15, 10),
                technique="runtime monitoring: big-integer oracle for modulus switching, switching up/down and scaling of polynomials"),
    "C06": dict(parts=both(15, 8),
                technique="runtime monitoring: round-trip monitors (equality of the object, of its parts and of its behaviour) over objects with random histories"),
    "C07": dict(parts=both(15, 8),
                technique="runtime monitoring: structure-aware and byte-level mutation of valid encodings under panic, heap-growth, invariant and usability monitors"),
    "C08": dict(parts=both(18, 8),
                technique="runtime monitoring: builder-rule oracle (independent validity and prime-availability model) and level-chain monitors over random setter histories"),
    "C09": dict(parts=both(15, 6),
                technique="runtime monitoring: encode/decode oracle (direct evaluation at the slot roots, ring product against slot product) over value streams"),
    "C10": dict(parts=both(15, 8),
                technique="runtime monitoring: textbook decryption and worst-case noise monitors on fresh and on crafted ciphertexts"),
    "C11": dict(parts=both(20, 10),
                technique="runtime monitoring: lockstep plaintext model and true-noise bound monitor over random homomorphic histories"),
    "C12": dict(parts=both(20, 8),
                technique="runtime monitoring: schoolbook phase oracle and analytical noise bound over every multiplication strategy, level and key level"),
    "C13": dict(parts=both(20, 8),
                technique="runtime monitoring: message substitution model, noise bound and support-report monitors over random evaluation keys"),
    "C14": dict(parts=both(18, 8),
                technique="runtime monitoring: external-product phase oracle and noise bound over random RGSW ciphertexts, levels and operands"),
    "C15": dict(parts=both(25, 12),
                technique="runtime monitoring: refusal oracle over mismatched operands (parameters, levels, lengths, contexts, keys, shares) and before/after state snapshots around every refused call"),
    "C16": dict(parts=both(16, 8),
                technique="runtime monitoring: statistical oracles (exact distribution, moments, dependence at 30 distances, repeated windows) over samples, and over errors and masks recovered exactly from keys, ciphertexts and shares"),
    "C17": dict(parts=both(18, 8),
                technique="runtime monitoring: seed-expansion and generator-replay monitors, and a table of every window of masks, masked parts and recovered errors seen in sessions of randomized operations"),
    "C18": dict(parts=[dict(build="hooked", secs=(18, 300)), dict(build="hooked-tfhe", secs=(8, 150))],
                technique="runtime monitoring: policy-propagation model of every polynomial against its flag, and an execution-policy hook reporting the operands of all variable-time code to a secret-lineage monitor"),
    "C19": dict(parts=both(16, 7),
                technique="runtime monitoring: a global allocator that inspects every heap block at the moment it is freed for the words of the secrets in use, recovered exactly by replaying each operation from the same generator state"),
    "C20": dict(parts=both(20, 10),
                technique="runtime monitoring: ideal-secret-key oracle and worst-case noise bounds over multi-party protocol runs with random party counts, orders and levels"),
    "C21": dict(parts=[dict(build="asan", secs=(18, 300), report_is_violation=True)]
                + [dict(build="asan", prop=p, tag=f"asan-{p}", secs=(3, 60), only_reports=True, report_is_violation=True) for p in ("C07", "C05", "C12", "C13", "C20")]
                + [dict(build="native", secs=(8, 200)), dict(build="tfhe", secs=(5, 100)),
                   dict(build="miri", secs=(110, 1500), runner="interp:run", cases=dict(words=4, transforms=4, scalers=4, dots=4, layouts=4, hostile=5, tiny=8))],
                technique="runtime monitoring: address sanitizer with the standard library's precondition checks, the Miri interpreter (tree borrows), overflow traps and guard words, over sessions, exact-size buffers and hostile calls"),
    "C22": dict(parts=[dict(build="native", tag="alone", secs=(18, 240), threads=4, runner="alone:run", alone=(40, 300), hang_is_violation="process"),
                       dict(build="tfhe", secs=(8, 120), threads=4, hang_is_violation="process"),
                       dict(build="tsan", secs=(25, 400), threads=3, hang_is_violation="process", report_is_violation=True)],
                technique="runtime monitoring: ThreadSanitizer, and results of operations under concurrent schedules (shuffled orders, injected delays) compared with the same operations alone in a thread and alone in a process; snapshots of the shared objects"),
    "C23": dict(parts=[dict(build="native", pair=["native", "tfhe"], tag="native-vs-tfhe", secs=(18, 300), runner="pair:run", same_seed=True)],
                technique="runtime monitoring: transcripts of the same random sessions recorded in builds with either transform and compared byte for byte"),
    "C24": dict(parts=both(15, 8),
                technique="runtime monitoring: exact rounding oracle for every switched part, noise bound, refused-operation monitors"),
}
for c in CHECKS.values():
    c.setdefault("assumptions", COMMON)
