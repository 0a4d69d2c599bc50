"""What each property's check consists of."""
CODEC = ["memtouse", "scryptenc_cpuperf", "crypto_entropy_read", "crypto_scrypt"]
T = True
CHECKS = {}


import os


def H(src, flavours, wraps=(), extra=(), main=True, args=(), repo_extra=()):
    return {"src": src, "flavours": flavours, "wraps": list(wraps), "extra": list(extra), "main": main, "args": list(args), "repo_extra": list(repo_extra)}


CHECKS["C01"] = dict(level="exploration",
    technique="model checking: exhaustive stateless exploration of operation sequences, data shapes and stream deliveries on the implementation",
    rule="each execution is one choice of data length x API pair x stream chunking (or parameters, passphrase length, or history of operations); non-trivial = the whole encrypt-decrypt-compare completed; distinct by the tuple of choices",
    harnesses=[H(["h_codec.c"], ["plain", ("asan", False)], CODEC, ["-DPROP=1"])],
    assumptions=["data content is a fixed pseudo-random pattern", "memory limit, CPU speed and salt answers are supplied by the harness"])
CHECKS["C02"] = dict(level="exploration",
    technique="model checking: exhaustive enumeration of bounded inputs on the implementation, compared with an independent reference of the format on every execution",
    rule="one data length / passphrase length / parameter tuple / header value per execution; non-trivial = output compared byte for byte with the reference file and the reference file decrypted by all interfaces",
    harnesses=[H(["h_codec.c"], ["plain", ("asan", False)], CODEC, ["-DPROP=2"])],
    assumptions=["header values whose key derivation is unaffordable are explored with a stubbed key derivation (its own conformance is C09)"])
CHECKS["C03"] = dict(level="exploration",
    technique="model checking: exhaustive enumeration of bounded corruptions (bit, byte-pair, structural, passphrase) on the implementation against a reference classifier",
    rule="each evaluation decrypts one modified (file, passphrase) pair through one interface; distinct by file and passphrase content",
    harnesses=[H(["h_codec.c"], ["plain", ("asan", True)], CODEC, ["-DPROP=3"]), H(["h_io.c"], ["plain"], CODEC + ["fopen"], ["-DPROP=3", "-DREAL_ENTROPY"])],
    assumptions=["files are small or just over one or two stream blocks", "passphrases that HMAC identifies (trailing NULs, hash of a long one) are not distinct passphrases"])
LIBSTUB = ["scryptenc_file", "scryptdec_file", "scryptdec_file_prep", "scryptdec_file_copy", "scryptdec_file_cookie_free", "scryptdec_file_printparams", "passphrase_entry_readpass"]
CHECKS["C16"] = dict(level="exploration",
    technique="model checking: exhaustive exploration of argument vectors up to a length on the real main(), each compared with a reference model of the command line",
    rule="one argument vector per evaluation, run in its own process; distinct by the vector's text; non-trivial = outcome (rejection, or the recorded operation with every option value) compared with the model",
    harnesses=[H(["h_args.c"], ["plain"], CODEC + LIBSTUB, ["-DPROP=16"])],
    assumptions=["library operations are stubs that record their arguments", "vectors beyond the stated length and values outside the alphabet are not explored"])
CHECKS["C24"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of library outcomes x errno x stream placement on the real main()",
    rule="one (library code, errno, mode, placement) per evaluation; non-trivial = exit status, diagnostic text and stdout checked",
    harnesses=[H(["h_args.c"], ["plain"], CODEC + LIBSTUB, ["-DPROP=24"])],
    assumptions=["library operations are stubs returning each code"])
for _id, _n, _lvl, _tech, _rule, _as in [
    ("C04", 4, "fault_enumeration",
     "model checking: exhaustive enumeration of refusal causes x header mutations x truncations x read-fault points x output placements on the real command and library",
     "one (cause, input, input placement, output placement) per evaluation; non-trivial = the decryption was refused and output file, directory, stdout and exit status were compared with the state before",
     ["memory limit, CPU speed and salt answers are supplied by the harness", "read faults inside the header are injected through stdio streams handed out by a wrapped fopen or stdin"]),
    ("C05", 5, "fault_enumeration",
     "model checking: exhaustive fault injection - every read, write, flush and close of a run failed in turn, every space limit - on the real library and command",
     "one (operation, size, buffering, fault kind, fault position) per evaluation; non-trivial = outcome compared with what reached the destination",
     ["key derivation stubbed for speed; data sizes listed in the harness", "real-kernel faults: file size limit, full device, closed pipe"]),
    ("C25", 25, "exploration",
     "model checking: exhaustive exploration of placements, options and operation histories of the real command against a model of the file system contents",
     "one command line or one history per execution; non-trivial = every file, stdout and the exit status compared with the model",
     ["key derivation stubbed (its own conformance is C09)", "input and output are different files"]),
    ("C27", 27, "fault_enumeration",
     "model checking: exhaustive enumeration of crash points - the real command killed at every system call, at every output byte, and again during the next run",
     "one (command, size, placement, crash point) per evaluation; non-trivial = the state of input and output left behind was compared with the allowed states, and interrupted encryptions were offered to decryption",
     ["a killed process, not a failing machine: what was written stays written", "key derivation stubbed for speed; data sizes listed in the harness"])]:
    CHECKS[_id] = dict(level=_lvl, technique=_tech, rule=_rule, assumptions=_as,
                       harnesses=[H(["h_io.c"], ["plain"], CODEC + ["fopen"], ["-DPROP=%d" % _n, "-DREAL_ENTROPY"])])
for _id, _n, _tech, _rule in [
    ("C06", 6, "model checking: exhaustive enumeration of parameter tuples x limits at and around every boundary on the implementation, against an exact integer oracle",
     "one (logN, r, p, memory limit, speed, time limit, override, interface) per evaluation; non-trivial = verdict, KDF start and KDF arguments compared with the oracle; distinct by that tuple"),
    ("C07", 7, "model checking: exhaustive enumeration of limits and explicit tuples at and around every boundary on the implementation, against an exact oracle",
     "one (limits or explicit tuple, interface) per evaluation; non-trivial = chosen parameters, header bytes, KDF arguments and warnings compared with the oracle"),
    ("C18", 18, "model checking: exhaustive enumeration of headers, limits and sizes on the implementation, with the printed text parsed and compared with exact arithmetic",
     "one size, header or report per evaluation; non-trivial = the text was parsed and compared")]:
    CHECKS[_id] = dict(level="exploration", technique=_tech, rule=_rule,
                       harnesses=[H(["h_limits.c"], ["plain"], CODEC, ["-DPROP=%d" % _n])],
                       assumptions=["memory limit, CPU speed and key derivation are supplied by the harness (they are decided by C08, C22 and C09)", "limits closer to a boundary than double precision can express are not distinguished"])
CHECKS["C08"] = dict(level="exploration",
    technique="model checking: exhaustive exploration of all combinations of system answers over an alphabet, with every query failure, on the implementation against an exact oracle",
    rule="one combination of (physical memory, unit, address-space and resident limits, page answers, fraction, maximum) per evaluation; non-trivial = the limit compared with exact arithmetic",
    harnesses=[H(["h_sys.c"], ["plain", "alt"], ["sysinfo", "getrlimit", "sysconf"], ["-DPROP=8"])],
    assumptions=["sysinfo, getrlimit and sysconf answers are the harness's; products of page size and count stay below 2^64", "sysctl is a stub of the alternative configuration: this platform has none"])
CHECKS["C22"] = dict(level="exploration",
    technique="model checking: exhaustive exploration of clock-reading schedules x resolutions, with each clock and derivation call failed in turn, on the implementation",
    rule="one schedule of elapsed times between consecutive clock readings per execution; non-trivial = the measured speed explained by the operations between two readings",
    harnesses=[H(["h_sys.c"], ["plain"], ["clock_gettime", "clock_getres", "gettimeofday", "crypto_scrypt"], ["-DPROP=22"])],
    assumptions=["elapsed times from a small alphabet for the first readings, then an optional standstill of 40 or 80 readings, then a long tick"])
CHECKS["C17"] = dict(level="exploration",
    technique="model checking: exhaustive enumeration of all strings up to a length over a numeric alphabet and of all type and suffix boundaries, on the implementation against a 128-bit reference",
    rule="one (string, target type and range) per evaluation; distinct by string; non-trivial = acceptance, value and reported cause compared with the reference",
    harnesses=[H(["h_parse.c"], ["plain"], [], [])],
    assumptions=["the value of a syntactically valid floating-point literal is the C library's", "literals that underflow are not distinguished"])
CPU = ["cpusupport_x86_%s_detect_1" % f for f in ("sse2", "ssse3", "shani", "aesni", "rdrand")]
CHECKS["C11"] = dict(level="model_checking",
    technique="model checking: exhaustive exploration of the (buffered length, update length) transition system, of interleaved histories, lengths, alignments and implementations on the real code, against an independent reference",
    rule="states = buffered length (and, for histories, the lengths held by three contexts); transitions = calls from them; every path ends in a digest compared with the reference",
    harnesses=[H(["h_hash.c"], ["plain", "alt", "arm", ("asan", True)], CPU, ["-DPROP=11"])],
    assumptions=["message content is one fixed pseudo-random pattern", "the reference is OpenSSL's SHA-256", "implementations available on this machine (SHANI, SSE2, portable), and the ARM routines with their instructions interpreted in software"])
CHECKS["C12"] = dict(level="model_checking",
    technique="model checking: exhaustive exploration of the (position, call length) transition system, carries, interleaved histories, alignments and implementations on the real code, against an independent reference",
    rule="states = position within a block (and, for histories, positions and keys of two streams); transitions = calls from them; every call's output is compared with the reference keystream",
    harnesses=[H(["h_hash.c"], ["plain", "alt", "arm", ("asan", True)], CPU, ["-DPROP=12"])],
    assumptions=["counter carries up to block 131072 (2^32 in the thorough tier)", "the reference is OpenSSL's AES", "implementations available on this machine (AESNI, OpenSSL), and the ARM routines with their instructions interpreted in software"])
ALLOC = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "strdup", "mmap", "munmap"]
CHECKS["C09"] = dict(level="exploration",
    technique="model checking: exhaustive enumeration of parameters, input and output lengths, histories and implementations on the real code against an independent reference",
    rule="one (N, r, p, passphrase length, salt length, output length, implementation) per evaluation; non-trivial = derived key compared with the reference",
    harnesses=[H(["h_kdf.c", "kdf_ref.c"], ["plain", "alt", "alt2", ("asan", True)], CPU + ALLOC, ["-DPROP=9"])],
    assumptions=["N up to 2^19 (2^22 in the thorough tier): the high half of the 64-bit index is not exercised", "passphrase and salt contents are fixed pseudo-random patterns"])
CHECKS["C10"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of parameters around every limit, and of every allocation failure, on the real code with all buffers bounded by unmapped pages",
    rule="one request, or one (request, failing allocation) per evaluation; non-trivial = verdict, errno, output and remaining allocations compared with the statement",
    harnesses=[H(["h_kdf.c"], ["plain", "alt", "alt2", ("asan", True)], CPU + ALLOC, ["-DPROP=10"])],
    assumptions=["requests needing over 4 MiB are answered with a refusal of allocations over 1 MiB"])
CHECKS["C20"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of CPU feature sets x broken accelerated routines (every output bit) x order of first use, each in a fresh process of the real code, against an independent reference",
    rule="one (features, fault of each routine, operation used first) per execution; non-trivial = hash, HMAC, PBKDF2, AES-CTR, key derivation, encryption and decryption all compared with the reference",
    harnesses=[H(["h_cpu.c"], ["plain"], CPU + ["SHA256_Transform_shani", "SHA256_Transform_sse2", "crypto_scrypt_smix_sse2", "crypto_aes_encrypt_block_aesni", "crypto_aes_encrypt_block_aesni_m128i", "crypto_aes_key_expand_aesni", "generate_seed_rdrand"], []),
        H(["h_cpu.c"], ["arm", "arm32", "armbsd", "armbsd32"], ["SHA256_Transform_arm", "crypto_aes_encrypt_block_arm", "crypto_aes_encrypt_block_arm_u8", "crypto_aes_key_expand_arm"], []),
        H(["h_cpuid.c"], ["plain"], ["SHA256_Transform_shani", "SHA256_Transform_sse2", "crypto_scrypt_smix_sse2", "crypto_aes_encrypt_block_aesni", "crypto_aes_encrypt_block_aesni_m128i", "crypto_aes_key_expand_aesni", "generate_seed_rdrand"], [], main=False,
          repo_extra=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "h"), "-include", "fake_cpuid.h"])],
    assumptions=["a broken routine is broken in the same way each time, hence also when it is tested", "the ARM routines run with their instructions interpreted in software, after the architecture manual"])
CHECKS["C13"] = dict(level="model_checking",
    technique="model checking: exhaustive exploration of request histories and of faults at every call to the entropy source, on the real generator, each output compared with a reference HMAC_DRBG driven by the entropy actually delivered",
    rule="states = (requests since seeding, chunk size) of the generator; transitions = instantiate, reseed, generate; one request per evaluation; non-trivial = output or failure compared with the model",
    harnesses=[H(["h_rand.c"], ["plain"], CPU + ["open", "read", "close", "getrandom", "getentropy", "malloc", "generate_seed_rdrand"], [])],
    assumptions=["the operating system's entropy is the harness's byte stream (pseudo-random, all zero or all one)", "RDRAND only adds to the seed"])
PASSW = ["fopen", "fclose", "fileno", "isatty", "tcgetattr", "tcsetattr"]
CHECKS["C14"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of entered texts up to a length, line sequences, lengths around the limits, and read errors at every position, for every entry method on the real code, against a reference of the entry protocol",
    rule="one (method, text, chunking, read fault) per evaluation; non-trivial = passphrase, refusal and the input left over compared with the reference",
    harnesses=[H(["h_pass.c"], ["plain"], PASSW + ["scryptenc_file", "scryptdec_file_prep"], ["-DPROP=14"])],
    assumptions=["texts over {a, b, LF, CR, NUL}", "a line with a NUL, or with a carriage return not before its line feed, may be cut there or refused", "confirmations that differ only in their line terminator may count as equal or not"])
CHECKS["C15"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of signal arrivals at every call boundary and of failures of every call, up to a number of events, on the real passphrase entry over a simulated terminal and signal table; replayed with real signals on a real pseudo-terminal",
    rule="one (terminal, dispositions, script, set of events) per execution; non-trivial = terminal settings, dispositions and the effect of every signal compared at the end and at each effect",
    harnesses=[H(["h_pass.c"], ["plain"], PASSW + ["sigaction", "raise", "kill", "strdup"], ["-DPROP=15"])],
    assumptions=["signals arrive at calls of the C library (the code has no other observable steps)", "restoring the terminal fails only by interruption", "sigaction does not fail"])
MEMW = CPU + ["mmap", "munmap", "fopen", "isatty", "tcgetattr", "tcsetattr"]
CHECKS["C19"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive enumeration of operations x outcomes x I/O faults x failing allocations on the real code, with all released, leaked, static and stack memory searched for secrets",
    rule="one (operation, outcome, fault, failing allocation) per evaluation, in its own process; non-trivial = all memory released during it and left after it searched for every 16-byte piece of every secret",
    harnesses=[H(["h_mem.c"], ["plain"], MEMW + CODEC, ["-DPROP=19"]), H(["h_mem.c"], ["arm"], MEMW + CODEC, ["-DPROP=19"], args=["--only", "library"])],
    assumptions=["memory is searched when it is freed or unmapped and at the end; memory the C library keeps for its own standard streams is not released", "on the stack, only whole 32-byte pieces count, so that register spills are not reported", "registers, swap and the kernel are not searched"])
CHECKS["C23"] = dict(level="fault_enumeration",
    technique="model checking: exhaustive failure of the n-th (and of the n-th and all later) allocation, for every n, of every operation of the real library and command, including the C library's own allocations",
    rule="one (operation, failing allocation) per evaluation, in its own process; non-trivial = result, output, message and everything left behind checked",
    harnesses=[H(["h_mem.c"], ["plain"], MEMW + ["crypto_entropy_read", "crypto_scrypt", "clock_gettime"], ["-DPROP=23"]), H(["h_mem.c"], ["arm"], MEMW + ["crypto_entropy_read", "crypto_scrypt", "clock_gettime"], ["-DPROP=23"], args=["--only", "misc"])],
    assumptions=["allocations made before the operation starts (program loading, the harness's streams) do not fail"])
CHECKS["C28"] = dict(level="exploration",
    technique="model checking: exhaustive enumeration of parameters x sizes x interfaces x headers on the real code, with every allocation and mapping accounted for",
    rule="one operation per evaluation; non-trivial = its peak of allocated and mapped memory, what it left allocated, and its number of key derivations compared with what the parameters allow",
    harnesses=[H(["h_res.c"], ["plain", "alt"], CODEC + ALLOC, [])],
    assumptions=["memory of the C library and of OpenSSL, the stack and the caller's buffers are not counted", "256 KiB are allowed for buffers"])
CHECKS["C21"] = dict(level="model_checking",
    technique="model checking: exhaustive exploration of all thread interleavings up to a preemption bound on the real code, under a controlled scheduler that switches at every access to memory the threads share",
    rule="one schedule per execution; non-trivial = every thread's derived key, and later ones, compared with the reference; states = (configuration, number of scheduling points); transitions = schedules",
    harnesses=[H(["h_conc.c"], ["sched"], CPU + ALLOC + ["SHA256_Transform_shani", "SHA256_Transform_sse2", "crypto_scrypt_smix_sse2", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_cond_wait", "pthread_once"], [])],
    assumptions=["interleavings are sequentially consistent, with up to 2 preemptions (1 for some configurations in the quick tier)", "memory is shared only through global variables and heap blocks reached from them"])
CHECKS["C26"] = dict(level="model_checking",
    technique="model checking: self-composition - every run of an operation over an enumerated set of secrets (all single-bit changes, all positions of a difference, patterns) explored and compared step by step, on the real code instrumented to report every control-flow edge and address",
    rule="one run of an operation with one value of the secrets per evaluation; non-trivial = its sequence of control-flow edges and addresses compared with that of the first secret; states = steps recorded for the first secret of each configuration, transitions = runs",
    harnesses=[H(["h_ct.c"], ["trace"], CPU + CODEC + ["memcpy", "memset", "memmove", "memcmp", "bcmp", "strcmp", "strncmp", "CRYPTO_memcmp", "mmap"], [], main=False)],
    assumptions=["timing is judged by control flow and addresses, not by instruction latencies", "the table of the second loop of scrypt's mixing is used depending on the passphrase by design", "OpenSSL's AES is not instrumented", "as compiled by clang -O1"])
