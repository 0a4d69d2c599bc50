import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,obs,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=q,where=files[0]) for q in state],observe_at=obs,hook_needed=None)))
E="lib/scryptenc/scryptenc.c"
p("C01","Encrypt-then-decrypt round trip",
 "Whatever is encrypted with a passphrase is recovered byte for byte by decrypting with the same passphrase, for any data length including zero, any passphrase bytes, any valid KDF parameters, and any pairing of the buffer and stream interfaces. How the input stream happens to be delivered (short reads, pipes, arbitrary chunking) and how the output stream accepts data never changes the result. The decrypted length reported equals the original length and nothing outside the documented output area is written.",
 ["inputs","histories"],"all data lengths, passphrases, parameter tuples, API pairings, and all chunkings of the input and output streams",
 "The tests round-trip one small file with a handful of parameters; block-boundary lengths, split deliveries around the 32-byte trailer and cross-API pairings are never exercised.",
 [E,"main.c"],[("buffer codec","scryptenc_buf, scryptdec_buf"),("stream codec","scryptenc_file, scryptdec_file_prep/copy")],["64 KiB + 32 byte sliding window of the stream decryptor"],["public scryptenc API"])
p("C02","Encrypted data conforms to the published format",
 "Every encrypted output is exactly the published version-0 format (magic, version, log2 N, big-endian r and p, 32-byte salt, 16-byte header checksum, 32-byte header MAC, AES256-CTR body from counter zero, 32-byte trailing MAC) for the passphrase, salt and parameters it carries, so an independent implementation decrypts it. Conversely any file built by an independent implementation of that format with valid parameters is decrypted correctly.",
 ["inputs"],"all data lengths, passphrases, salts and parameter tuples, through both buffer and stream interfaces",
 "Tests compare against a few stored reference files with one parameter set each; they cannot see a format deviation that encryptor and decryptor share for other lengths or parameters.",
 [E,"FORMAT"],[("header construction","scryptenc_setup"),("header parsing","scryptdec_setup")],["96-byte header","derived key split 32/32"],["public scryptenc API, compared to an OpenSSL-based reference"])
p("C03","No modified ciphertext or wrong passphrase is accepted",
 "Decryption reports success only if the input is exactly a complete encrypted file under the given passphrase: any flipped bit or set of bytes, truncation, extension, reordering, or any other passphrase (except the few byte strings HMAC itself identifies with it: padding with NUL bytes up to 64, or the hash of one longer than 64) makes it fail. The failure code is the documented one: a bad magic, checksum, MAC, length or invalid parameter is reported as invalid data, another version as an unrecognised version, and a wrong passphrase as a wrong passphrase.",
 ["inputs"],"all single-bit flips, byte-pair edits, truncation and extension points, passphrase edits, via all decryption interfaces",
 "Tests try one corrupted file per error code; a comparison that skips or cancels particular bytes passes them all.",
 [E,"libcperciva/crypto/crypto_verify_bytes.c"],[("header checksum, header MAC, trailing MAC","scryptdec_setup, scryptdec_buf, scryptdec_file_copy"),("comparison","crypto_verify_bytes")],[],["return codes of the decryption API"])
p("C04","Nothing is written before header and passphrase are verified",
 "When decryption cannot proceed because the header is malformed, of another version, has invalid or over-limit parameters, the passphrase is wrong or unavailable, or the input cannot be opened or read, the command neither creates nor truncates nor writes the output file and writes nothing to standard output, and it exits with status 1. The stream interface likewise writes nothing to its output in those cases, and never emits plaintext that differs from a prefix of the true plaintext while the processed ciphertext is authentic.",
 ["inputs","fault_sequences"],"all header bytes and truncations, wrong passphrases, limit refusals, and read failures at each point of the header, for existing and absent output files and stdout",
 "One test checks this for one bad file; the ordering must hold for each failure cause.",
 ["main.c",E],[("two-phase decrypt","scrypt_mode_enc_dec, scryptdec_file_prep, scryptdec_file_copy")],["output file system state"],["file system, stdout and exit status of the command"])
p("C05","An I/O failure is never reported as success",
 "If any read of the input or any write, flush or close of the output fails or ends short at any point, the library returns an error (read failures as a read error, write failures as a write error) and the command exits with a non-zero status. Equivalently, exit status 0 or a success code means the complete, correct output reached its destination.",
 ["fault_sequences"],"every single fault position and kind on every stream operation of an encryption or decryption run, to a file or to standard output, with every stream buffering mode",
 "Tests inject no I/O errors at all.",
 ["main.c",E],[("stream loops","scryptenc_file, scryptdec_file_copy"),("closing of files","scrypt_mode_enc_dec")],["stdio error and EOF flags"],["return code, exit status, destination content"])
p("C06","Decryption honours resource limits before deriving the key",
 "Unless limits are explicitly overridden, decrypting a file whose parameters need more memory (128Nr bytes) than the memory limit or more computation (4Nrp operations) than speed times the time limit is refused, with the code that says which limit or both, before any key derivation is started; a file within both limits is never refused. Parameters outside the valid range (log2 N not 1..63, r or p zero, r*p >= 2^30) are always refused as invalid, even with the override. With the override, no limit or speed measurement is consulted.",
 ["inputs","configurations"],"all (log2 N, r, p), memory limits, CPU speeds and time limits at and around each boundary, with and without override",
 "Real limits depend on the machine, so tests only try one clearly small and one clearly huge file.",
 [E],[("limit check","checkparams"),("header parse","scryptdec_setup")],["N, r, p","memlimit","opslimit"],["return code; whether and how key derivation is invoked"])
p("C07","Encryption chooses parameters within the limits and records them",
 "When parameters are chosen automatically, r is 8, 128Nr is at most the memory limit, and the work 4Nrp is at most the allowed operation count (never less than 32768), with N the largest power of two the binding limit permits and p the most the remaining time allows (1 when time binds). Explicit parameters are used verbatim when valid, with only a warning when they exceed limits, and rejected as invalid parameters otherwise. The parameters used are the ones written in the header, passed to the key derivation, and returned to the caller.",
 ["inputs","configurations"],"all memory limits, CPU speeds, time limits and explicit parameter tuples at and around each boundary",
 "The result depends on measured machine speed and memory, so tests can only check that it works on the test machine.",
 [E],[("parameter picking","pickparams"),("explicit parameters","scryptenc_setup, checkparams")],["N, r, p"],["header bytes, returned parameters, arguments of the key derivation, warnings"])
p("C08","The memory limit is the tightest applicable limit",
 "The memory budget is the requested fraction of the smallest of the machine's physical memory (by every available source) and the applicable process resource limits, then capped by the explicit maximum if one is given, and never below 1 MiB. Unlimited or absent sources do not constrain it, arithmetic never wraps, and a failure to query a limit is reported as an error rather than guessed.",
 ["configurations","fault_sequences"],"all combinations of system answers (memory size, unit, page counts, soft limits, infinities, errors) with fractions and explicit maxima",
 "A test runs on one machine with one set of limits.",
 ["lib-platform/util/memlimit.c"],[("limit sources","memtouse and its helpers")],["memory limit"],["memtouse return value and result"])
p("C09","Key derivation equals scrypt (RFC 7914)",
 "For every passphrase, salt, N, r, p and output length accepted, the derived key equals the scrypt function of RFC 7914, whichever implementation of the mixing core and of SHA-256 is selected.",
 ["inputs","configurations"],"passphrase and salt lengths, N, r, p and output lengths over wide alphabets, for every selectable implementation",
 "The tests use four RFC vectors on whichever implementation the test machine selects.",
 ["lib-platform/crypto/crypto_scrypt.c","lib/crypto/crypto_scrypt_smix.c","lib/crypto/crypto_scrypt_smix_sse2.c","libcperciva/alg/sha256.c"],[("scrypt","crypto_scrypt / scrypt_kdf"),("mixing cores","crypto_scrypt_smix, crypto_scrypt_smix_sse2")],["B, V, XY buffers"],["crypto_scrypt output"])
p("C10","Key derivation rejects bad parameters and resource failures cleanly",
 "The key derivation returns failure, with the documented errno and without touching the output, for N that is not a power of two greater than 1, r or p zero, r*p >= 2^30, an output length over the limit, or sizes that overflow; it never reads or writes outside its buffers. If any memory allocation or mapping fails it returns failure and releases everything it had acquired.",
 ["inputs","fault_sequences"],"all boundary (N, r, p, length) tuples and every allocation/mapping failure position",
 "Tests use only valid parameters and a machine with enough memory.",
 ["lib-platform/crypto/crypto_scrypt.c"],[("parameter check and allocation","crypto_scrypt_internal")],["allocations"],["return value, errno, output buffer, live allocations"])
p("C11","Hashing is independent of chunking, history and implementation",
 "SHA-256, HMAC-SHA256 and PBKDF2-SHA256 produce the standard result for every message, key, salt and output length, no matter how the message is split across updates, what was hashed before or in between, how the buffers are aligned, or which CPU implementation is active.",
 ["histories","inputs","configurations"],"all (buffered length, update length) transitions, splits, interleavings, alignments and implementations; message lengths past 2^32 bits",
 "Tests hash a few vectors in one call with the machine's implementation.",
 ["libcperciva/alg/sha256.c","libcperciva/alg/sha256_sse2.c","libcperciva/alg/sha256_shani.c"],[("streaming hash","SHA256_Init/Update/Final, HMAC_SHA256_*, PBKDF2_SHA256")],["buffered byte count, bit count, chaining state"],["digests"])
p("C12","AES-CTR streams are position-exact for every call history",
 "The AES-CTR stream cipher produces the standard keystream for 128 and 256-bit keys from the given nonce and counter zero, for every way of splitting the data over calls, in place or between separate buffers, across every counter carry, for independent interleaved streams and re-initialised ones, with either AES implementation.",
 ["histories","inputs","configurations"],"all (position mod 16, length) transitions, counter carries, interleavings of two streams, implementations",
 "Tests push data through in a fixed pattern only as part of whole-file encryption.",
 ["libcperciva/crypto/crypto_aesctr.c","libcperciva/crypto/crypto_aesctr_shared.c","libcperciva/crypto/crypto_aesctr_aesni.c","libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aes_aesni.c"],[("CTR mode","crypto_aesctr_init2/stream/buf"),("block cipher","crypto_aes_key_expand, crypto_aes_encrypt_block")],["byte position, cached keystream block"],["output bytes"])
p("C13","Salts come from a correctly seeded generator, never from failed entropy",
 "Random bytes (hence every salt) are the HMAC_DRBG (SP 800-90A, SHA-256) output for the operating system entropy actually read, instantiated before first use and reseeded at the prescribed interval, for every history of request sizes; no two requests share output. If the entropy source cannot be opened, read in full or closed, the request fails, encryption reports a salt error, and no output is produced from stale or partial entropy.",
 ["histories","fault_sequences"],"all histories of request sizes (including above the per-request maximum and past reseed), entropy delivery chunkings and failures at every step",
 "Random output cannot be compared in a test, and entropy failures do not occur in one.",
 ["libcperciva/crypto/crypto_entropy.c","libcperciva/util/entropy.c"],[("DRBG","crypto_entropy_read"),("OS entropy","entropy_read*")],["DRBG key, V, reseed counter"],["bytes returned, return codes"])
p("C14","The passphrase used is exactly what the user supplied",
 "For each entry method (terminal or standard input with confirmation on encryption, standard input once, explicit terminal, environment variable, file) the passphrase handed to encryption is exactly the first line the user supplied with its line terminator removed, confirmation mismatches re-prompt until two entries agree, and end of input, read errors, unset variables, over-long entries or multi-line passphrase files are errors rather than silently altered passphrases.",
 ["inputs","histories","fault_sequences"],"all short input scripts over a line alphabet, lengths around the maximum, all methods, and read failures",
 "Tests feed a single well-formed passphrase per method.",
 ["libcperciva/util/readpass.c","libcperciva/util/readpass_file.c","lib/util/passphrase_entry.c"],[("line reading and confirmation","readpass"),("file","readpass_file"),("dispatch","passphrase_entry_parse, passphrase_entry_readpass")],[],["returned passphrase or error"])
p("C15","Terminal echo and signal handling are always restored",
 "While a passphrase is read from a terminal echo is off and no other setting of the terminal is changed, and however reading ends - success, end of input, error in any system call, or a signal arriving at any moment - the terminal settings and all signal dispositions are restored to what they were, and a signal that arrived takes its original effect after, not before, the restoration.",
 ["crash_points","schedules","fault_sequences"],"arrival of each handled signal (and pairs) at every point between system-level operations, each system call failing, terminals and non-terminals, confirmation retries",
 "Tests do not use a terminal and cannot deliver signals at chosen points.",
 ["libcperciva/util/readpass.c"],[("signal blocking and termios handling","readpass")],["termios, signal dispositions"],["termios settings, dispositions, signal death status"])
p("C16","Command-line options are interpreted as documented",
 "For every argument vector the command either does exactly the documented operation with the documented option values and defaults (mode, files, limits, explicit parameters, passphrase method, force, verbose), or rejects it with a diagnostic and exit status 1 having performed no operation. In particular ranges of numeric options are enforced, explicit parameters are all-or-none, at most one passphrase method is given, and a passphrase and data are never both read from standard input by the once-method.",
 ["inputs"],"all argument vectors up to a length over an alphabet of options (short, joined, long, long with =), values and operands",
 "Tests use about a dozen argument vectors.",
 ["main.c","libcperciva/util/getopt.c","lib/util/passphrase_entry.c"],[("option loop","main"),("option parsing","getopt")],["parsed options"],["arguments of the performed operation, exit status"])
p("C17","Numbers and sizes are parsed exactly or rejected",
 "Every numeric option value and size (decimal, with optional SI suffix and B) is converted to exactly the number it denotes if it is in range, and otherwise rejected; no text that does not denote a number in the range - not-a-number, negative, overflowing, empty, or with trailing characters - is accepted, and the reported cause (syntax or range) is right.",
 ["inputs"],"all strings up to a length over a numeric alphabet, and all values around type and suffix boundaries, for each target type used",
 "Tests parse a short list of strings.",
 ["libcperciva/util/parsenum.h","libcperciva/util/humansize.c"],[("number parsing","PARSENUM"),("size parsing","humansize_parse")],[],["parsed value, errno"])
p("C18","Reported parameters are true",
 "Verbose mode and info mode report exactly the N, r and p of the file or of the encryption being done, the memory needed (128Nr, in SI units correctly scaled, never wrapped), and where shown the memory limit and estimated time; info mode reports them for every file with a valid header, without asking for a passphrase, and refuses files whose header is not valid. Reporting goes to standard error and never alters the data output.",
 ["inputs"],"all (log2 N, r, p) including extremes and invalid ones, all memory limits and speeds; all 64-bit sizes around unit boundaries",
 "A test compares one printed line for one file.",
 [E,"libcperciva/util/humansize.c"],[("display","display_params, scryptdec_file_printparams"),("size formatting","humansize")],[],["standard error text, return code"])
p("C19","No secret outlives the operation that needed it",
 "When an encryption, decryption or passphrase-entry operation ends, on every path including each failure, no passphrase, derived key, expanded cipher key or cipher key stream remains in memory that the program has freed, unmapped, leaked or keeps in static variables, and no passphrase or derived key remains in the stack it used; likewise no hashing, HMAC or PBKDF2 call leaves behind the key, the message or the keyed state it worked on. (Memory still owned by the caller, and the C library's own buffers of the standard streams, are not released and so not meant.)",
 ["fault_sequences","histories"],"every return path reachable by one injected fault (I/O, allocation, entropy, wrong passphrase, corrupt data) of each operation",
 "Tests do not inspect memory.",
 [E,"libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aesctr.c","libcperciva/util/readpass.c","libcperciva/util/readpass_file.c","main.c","libcperciva/alg/sha256.c","lib-platform/crypto/crypto_scrypt.c"],[("wiping","insecure_memzero callers")],["derived key, round keys, passphrase buffers"],["content of memory blocks at free/unmap, of static data and of the stack after return"])
p("C20","Results do not depend on CPU features, even broken ones",
 "For every combination of available CPU features, and even if an accelerated implementation computes wrong results, hashing, encryption and key derivation produce the correct results: accelerated code is used only after it is checked against the portable code, and a failed check falls back. A feature is taken to be present exactly when the CPU announces it.",
 ["configurations","fault_sequences"],"all combinations of feature availability and of faulty accelerated routines",
 "A test machine has one fixed, correct CPU.",
 ["lib-platform/crypto/crypto_scrypt.c","libcperciva/alg/sha256.c","libcperciva/crypto/crypto_aes.c","libcperciva/cpusupport/cpusupport.h"],[("self-tests and selection","selectsmix, hwaccel_init, hwtest, useaesni")],["selected implementation"],["outputs"])
p("C21","Concurrent key derivations do not interfere",
 "Key derivations running in several threads of one process, including the very first ones, each return the result they would return alone, under every interleaving.",
 ["schedules"],"all interleavings of two (and three) concurrent derivations at accesses to shared memory, within a preemption bound, from the uninitialised and the initialised state",
 "No test uses threads.",
 ["lib-platform/crypto/crypto_scrypt.c","libcperciva/alg/sha256.c","libcperciva/cpusupport/cpusupport.h"],[("lazy implementation selection","crypto_scrypt, sha256 hwaccel, cpusupport caches")],["lazily initialised globals"],["results of crypto_scrypt in each thread"],False)
p("C22","CPU speed is measured from elapsed time only, and clock errors are reported",
 "The CPU speed used for limits is the number of operations actually performed divided by the elapsed time actually measured, for every clock resolution and every schedule of clock readings, including a coarse clock or a clock that stands still for long; a failing clock or failing key derivation during measurement is reported as an error, never as a speed.",
 ["schedules","fault_sequences"],"all clock resolutions and reading schedules over an alphabet, with a failure at each clock call",
 "The real clock gives one schedule.",
 ["lib/scryptenc/scryptenc_cpuperf.c","libcperciva/util/monoclock.c"],[("measurement","scryptenc_cpuperf"),("clock","monoclock_get, monoclock_getres")],[],["reported operations per second, return code"])
p("C23","Running out of memory is reported, without leak or crash",
 "If any single memory allocation, or it and all later ones, fails during encryption, decryption, info, passphrase entry, key derivation or size formatting, the operation fails with an error code (or carries on correctly), never crashes, never reports success with incomplete output, and leaves no memory, mapping or file descriptor behind. (If memory runs out while the command is still parsing its options, it may also abort with a message.)",
 ["fault_sequences"],"failure of the n-th allocation for every n, for each public operation and for the command",
 "Allocations do not fail in tests.",
 [E,"lib-platform/crypto/crypto_scrypt.c","libcperciva/util/readpass.c","libcperciva/util/readpass_file.c","libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aesctr.c","main.c"],[("error paths","goto err chains")],["live allocations"],["return codes, live allocations, output"])
p("C24","Every outcome has the right exit status and message",
 "The command exits 0 exactly when the requested operation completed, and otherwise exits 1 with a diagnostic on standard error that states the actual cause and no other: each library error code maps to its own documented message, names the input or output file where relevant, and includes the system error for system failures.",
 ["inputs","fault_sequences"],"all library error codes crossed with operations, file or standard stream, and errno values",
 "Tests provoke a few of the fifteen errors.",
 ["lib/scryptenc/scryptenc_print_error.c","main.c","libcperciva/util/warnp.c"],[("mapping","scryptenc_print_error, warnp")],[],["standard error, exit status"])
p("C25","The command composes correctly with files, pipes and its own output",
 "Run as a command, encryption to and decryption from any combination of named file (or link, named pipe or device), standard input and standard output yields the same bytes as the library, overwrites (never appends to or leaves a tail of) an existing output file, leaves the input (which must be a different file) untouched, and gives each encryption of the same data a fresh salt and so a different output.",
 ["inputs","configurations","histories"],"all combinations of modes, input/output placement, passphrase methods, options that do not affect data, and pre-existing output contents",
 "Tests use a few fixed combinations.",
 ["main.c"],[("file handling","scrypt_mode_enc_dec, scrypt_mode_info")],["output file"],["file contents and exit status"])
p("C26","Secrets are not revealed by what is executed or accessed",
 "Which instructions are executed and which memory addresses are accessed does not depend on secret contents, only on lengths: comparing authentication codes takes the same path whether and wherever they differ, a wrong passphrase or a damaged header or final MAC is refused by the same path whichever bits are wrong, and hashing, HMAC, PBKDF2, the AES-CTR code and the key derivation run the same path for all keys, passphrases and data. (The table accesses of the second loop of scrypt's mixing, which depend on the passphrase by definition, and OpenSSL's own AES are excepted.)",
 ["inputs","configurations"],"all pairs of secrets from the enumerated sets (every single-bit change, every position of a difference, patterns), for each operation, length and CPU implementation",
 "The path taken is not an output; a test that compares results cannot see it.",
 ["libcperciva/crypto/crypto_verify_bytes.c","lib/scryptenc/scryptenc.c","libcperciva/alg/sha256.c","libcperciva/crypto/crypto_aesctr.c","libcperciva/crypto/crypto_aes_aesni.c","lib/crypto/crypto_scrypt_smix.c"],[("constant-time comparison","crypto_verify_bytes"),("MAC checks","scryptdec_setup, scryptdec_buf, scryptdec_file_copy")],[],["sequence of control-flow edges and of addresses loaded and stored"])
p("C27","A run killed at any moment leaves nothing that could be mistaken",
 "If the command is killed at any moment, the input file is unchanged and the output is either as it was before or a leading part of what the complete run writes, so an interrupted encryption is never accepted by decryption and an interrupted decryption has written only true plaintext. While a decryption's passphrase and header have not been verified, a kill leaves the output untouched. Running the same command again, whatever earlier killed runs left behind, gives the complete output.",
 ["crash_points","inputs","histories"],"all system calls and all output bytes at which a run can be killed, for both modes, all placements and data sizes around the internal blocks, and pairs of killed runs",
 "Tests never kill a run.",
 ["main.c","lib/scryptenc/scryptenc.c"],[("opening of the output","scrypt_mode_enc_dec"),("writing","scryptenc_file, scryptdec_file_copy")],["input file","output file"],["file contents after the kill"])
p("C28","Memory use is what the parameters announce",
 "Deriving a key, encrypting and decrypting never hold more memory at once than the parameters account for (128 r N bytes plus 128 r p bytes) and a small constant, however much data is processed and however it is delivered, do a single key derivation, and hold nothing afterwards. A decryption that is refused because of its header allocates only the constant, and reading a passphrase from a file of any size allocates only the constant. What is allocated stays within the memory limit in force, unless overridden.",
 ["inputs","configurations"],"all parameters of a grid, data sizes from nothing to tens of megabytes, interfaces, and all values of the header parameters at and around powers of two",
 "Tests check results only; memory in excess goes unnoticed on machines with enough of it.",
 ["lib-platform/crypto/crypto_scrypt.c","lib/scryptenc/scryptenc.c","libcperciva/util/readpass_file.c"],[("allocation of the table","crypto_scrypt_internal"),("stream buffers","scryptenc_file, scryptdec_file_prep"),("limits","checkparams")],["heap","mappings"],["allocated and mapped bytes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P))
