"""Builds harnesses against the current working tree of /repo.

Every object is compiled from /repo's sources as they are now; objects are kept
in /verif/build under a hash of everything they depend on (all sources and
headers of /repo, the flags), so nothing stale can be used.
"""
import os, re, glob, hashlib, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

INCDIRS = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util", "lib/crypto", "lib/scryptenc", "lib/util",
           "libcperciva/alg", "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/util", "libscrypt-kdf"]
SRCDIRS = ["lib/crypto", "lib/scryptenc", "lib/util", "lib-platform/crypto", "lib-platform/util",
           "libcperciva/alg", "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/util"]
CPUFLAGS = {"X86_AESNI": ["-maes"], "X86_RDRAND": ["-mrdrnd"], "X86_SHANI": ["-msse2", "-msha"],
            "X86_SSE2": ["-msse2"], "X86_SSSE3": ["-mssse3"]}
BASE = ["-DHAVE_CONFIG_H", '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"', '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"']
POSIX = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]

FLAVOURS = {
    # name: (cc, cflags, ldflags)
    "plain": ("gcc", ["-O2", "-g", "-std=c99"], []),
    "asan": ("gcc", ["-O1", "-g", "-std=c99", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize=alignment", "-fno-sanitize-recover=all", "-fsanitize=float-cast-overflow"],
             ["-fsanitize=address,undefined"]),
    # Compile with thread-sanitizer instrumentation, but link with our own
    # runtime, which turns accesses to shared memory into scheduling points.
    "sched": ("clang", ["-O1", "-g", "-std=c99", "-fsanitize=thread"], ["-no-pie"]),
    # Other configurations of the same sources: no CPU features, no mmap or
    # sysinfo; memory from malloc (alt) or posix_memalign (alt2); sysctl.
    "alt": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ALT"], []),
    "alt2": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ALT", "-DVF_ALT2"], []),
    # The ARM routines, with their instructions in software and the features
    # announced by getauxval or elf_aux_info, on 64 or 32-bit ARM.
    "arm": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ARM"], []),
    "arm32": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ARM", "-DVF_ARM32"], []),
    "armbsd": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ARM", "-DVF_ARM_AUXINFO"], []),
    "armbsd32": ("gcc", ["-O2", "-g", "-std=c99", "-DVF_ARM", "-DVF_ARM32", "-DVF_ARM_AUXINFO"], []),
    # Coverage instrumentation whose callbacks the harness defines.
    "trace": ("clang", ["-O1", "-g", "-std=c99", "-fno-builtin", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"], ["-no-pie", "-rdynamic"]),
    "tsan": ("clang", ["-O1", "-g", "-std=c99", "-fsanitize=thread"], ["-fsanitize=thread"]),
}


if os.environ.get("VF_PLAIN"):  # try other compilers and optimisation levels
    _a = os.environ["VF_PLAIN"].split()
    FLAVOURS["plain"] = (_a[0], _a[1:] + ["-g", "-std=c99"], [])


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def repo_sources():
    srcs = []
    for d in SRCDIRS:
        srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    included = set()
    for s in srcs:
        for m in re.finditer(r'^\s*#\s*include\s+"([^"]+\.c)"', open(s, errors="replace").read(), re.M):
            included.add(os.path.basename(m.group(1)))
    out = []
    for s in srcs:
        b = os.path.basename(s)
        if b in included or b == "crypto_scrypt-ref.c":
            continue
        out.append(s)
    return out


_tree = None


def tree_hash():
    """Of everything a source can include."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = []
        for d in INCDIRS + SRCDIRS:
            fs += glob.glob(os.path.join(REPO, d, "*.h"))
            for c in glob.glob(os.path.join(REPO, d, "*.c")):
                for m in re.finditer(r'^\s*#\s*include\s+["<]([^">]+\.c)[">]', open(c, errors="replace").read(), re.M):
                    fs += glob.glob(os.path.join(REPO, "*", "*", os.path.basename(m.group(1)))) + glob.glob(os.path.join(REPO, "*", os.path.basename(m.group(1))))
        fs += glob.glob(os.path.join(REPO, "lib", "crypto", "crypto_scrypt-ref.c"))	# included by h/kdf_ref.c
        for f in sorted(set(fs)) + sorted(glob.glob(os.path.join(VERIF, "config*", "*.h")) + glob.glob(os.path.join(VERIF, "config*", "sys", "*.h"))):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
        _tree = h.hexdigest()
    return _tree


def cflags_for(src, flavour="plain"):
    fl = []
    if flavour.startswith("arm"):
        fl = ["-D__ARM_NEON"]
        if os.path.basename(src).startswith("cpusupport_arm"):
            if flavour.endswith("32"):
                fl += ["-D__arm__", "-DHWCAP2_AES=(1<<0)", "-DHWCAP2_SHA2=(1<<3)", "-DHWCAP2_CRC32=(1<<4)"]
            else:
                fl += ["-D__aarch64__", "-DHWCAP_AES=(1<<3)", "-DHWCAP_SHA2=(1<<6)", "-DHWCAP_CRC32=(1<<7)"]
            fl += ["-include", os.path.join(VERIF, "config-arm", "elf_aux_info.h")]
        return fl
    head = open(src, errors="replace").read(4000)
    m = re.search(r"CPUSUPPORT CFLAGS:([^\n]*)", head)
    if m:
        for n in m.group(1).split():
            fl += CPUFLAGS.get(n, [])
    return fl


def compile_obj(cc, flags, src, tag):
    h = hashlib.sha256()
    h.update(tree_hash().encode())
    h.update(repr((cc, flags, src)).encode())
    h.update(open(src, "rb").read())
    if not src.startswith(REPO + "/") or "-include" in flags:
        for f in sorted(glob.glob(os.path.join(VERIF, "fw", "*.h")) + glob.glob(os.path.join(VERIF, "h", "*.h"))):
            h.update(open(f, "rb").read())
    o = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (os.path.basename(src)[:-2], tag, h.hexdigest()[:24]))
    if not os.path.exists(o):
        tmp = "%s.%d" % (o, os.getpid())
        sh([cc] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, o)
    return o


def build(harness, flavour="plain", wraps=(), extra=(), want_main=True, repo_extra=(), objs_extra=(), ldextra=(), name=None, hcc=None):
    """Compile harness sources (in /verif/h and /verif/fw) with all of /repo's
    sources and link them, redirecting the symbols in `wraps`."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    cc, cfl, ldfl = FLAVOURS[flavour]
    inc = ["-I" + os.path.join(VERIF, "config-alt" if flavour.startswith("alt") else "config-arm" if flavour.startswith("arm") else "config")]
    for d in INCDIRS:
        inc += ["-I" + os.path.join(REPO, d)]
    jobs = []
    for s in repo_sources():
        posix = [] if os.path.basename(s) == "memlimit.c" else POSIX
        jobs.append((cc, cfl + BASE + inc + posix + cflags_for(s, flavour) + list(repo_extra) + ["-w"], s, flavour))
    if want_main:
        jobs.append((cc, cfl + BASE + inc + POSIX + ["-Dmain=scrypt_main", "-w"] + list(repo_extra), os.path.join(REPO, "main.c"), flavour))
    hflags = [f for f in cfl if f != "-std=c99"] + ["-std=gnu11", "-Wall", "-Wextra", "-Wno-unused-parameter", "-Wno-deprecated-declarations", "-Wno-unused-result", "-Wno-stringop-truncation",
              "-I" + os.path.join(VERIF, "fw"), "-I" + os.path.join(VERIF, "h")] + BASE + inc + list(extra)
    # framework and harness code is not instrumented for the scheduler
    if flavour in ("sched", "trace"):
        hflags = [f for f in hflags if not f.startswith("-fsanitize")]
    hs = [os.path.join(VERIF, "h", x) for x in harness] + [os.path.join(VERIF, "fw", "vf.c"), os.path.join(VERIF, "h", "ref.c")]
    if flavour.startswith("alt"):
        hs.append(os.path.join(VERIF, "fw", "alt.c"))
    if flavour.startswith("arm"):
        hs.append(os.path.join(VERIF, "fw", "arm.c"))
    for s in hs:
        jobs.append((cc, hflags, s, flavour))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    if flavour.startswith("alt"):
        wraps = [w for w in wraps if not re.match(r"cpusupport_|.*_(shani|sse2|aesni|rdrand)", w)]
    if flavour.startswith("arm"):
        wraps = [w for w in wraps if not re.match(r"cpusupport_|.*_(shani|sse2|aesni|rdrand)", w)] + ["getauxval", "elf_aux_info"]
    exe = os.path.join(BUILD, "bin", "%s-%s" % (name or os.path.splitext(harness[0])[0], flavour))
    link = [cc] + [f for f in cfl if not f.startswith("-std")] + objs + list(objs_extra) + ["-o", exe]
    if flavour in ("sched", "trace"):
        link = [f for f in link if not f.startswith("-fsanitize")]
    # calls which change the file system are confined (vf.c)
    wraps = list(wraps) + [w for w in ("unlink", "remove", "rmdir", "unlinkat", "rename", "renameat", "chmod", "chown", "truncate", "fchmod") if w not in wraps]
    link += ["-Wl,--wrap=%s" % w for w in wraps] + ldfl + ["-lcrypto", "-lpthread", "-lrt", "-lm", "-ldl"] + list(ldextra)
    sh(link)
    return exe


def prune(maxbytes=400 << 20):
    """Keep the object cache small."""
    fs = []
    for f in glob.glob(os.path.join(BUILD, "obj", "*")):
        try:
            st = os.stat(f)
            fs.append((st.st_atime, st.st_size, f))
        except OSError:
            pass
    tot = sum(x[1] for x in fs)
    for at, sz, f in sorted(fs):
        if tot <= maxbytes:
            break
        os.unlink(f)
        tot -= sz
