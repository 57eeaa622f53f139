#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree (two variants).

  opt : repository sources at the makefile's -O2
  san : repository sources with AddressSanitizer + a set of UBSan checks that only flag real undefined behaviour

Every libc entry point the repository's code uses is renamed (objcopy --redefine-sym) to a sim_* seam, so /repo is
compiled unmodified.  The mri debug-monitor core exists only inside the shipped binary (the mri submodule is not
vendored), so its machine code is mapped from mri/shipped/*.img and the repository's platform layer is spliced in.
Exit status 2 means "could not build" and never counts as an answer about a property.
"""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
IMG = os.path.join(VERIF, "mri/shipped/crashdebug-1.7-lin64.img")
SEAMS = {}
for n in ("fopen fclose fread fgets fgetc ungetc fseek ftell rewind ferror feof clearerr malloc calloc realloc "
          "reallocarray free strdup strndup read write select pselect poll ioctl printf vprintf fprintf vfprintf puts "
          "fputs putchar fputc fwrite fflush perror getchar exit abort signal sigaction usleep sleep nanosleep time "
          "gettimeofday clock_gettime getline getdelim asprintf vasprintf fileno fstat stat isatty dprintf vdprintf setvbuf setbuf "
          "setlinebuf fdopen open close lseek access readv writev ppoll pread aligned_alloc posix_memalign").split():
    SEAMS[n] = "sim_" + n
SEAMS.update({"main": "crashdebug_main", "_exit": "sim_exit_now", "__assert_fail": "sim_assert_fail"})
# second names of the same seams (objcopy wants unique targets per pass)
ALIASES = [{"getc": "sim_fgetc", "putc": "sim_fputc", "fopen64": "sim_fopen", "fseeko": "sim_fseek", "ftello": "sim_ftell",
            "fread_unlocked": "sim_fread", "fgets_unlocked": "sim_fgets", "_Exit": "sim_exit_now", "putc_unlocked": "sim_fputc",
            "putchar_unlocked": "sim_putchar", "open64": "sim_open", "lseek64": "sim_lseek", "fflush_unlocked": "sim_fflush",
            "feof_unlocked": "sim_feof", "ferror_unlocked": "sim_ferror", "fputs_unlocked": "sim_fputs", "fwrite_unlocked": "sim_fwrite",
            "fputc_unlocked": "sim_fputc", "pread64": "sim_pread", "fstat64": "sim_fstat", "stat64": "sim_stat"},
           {"_IO_getc": "sim_fgetc", "_IO_putc": "sim_fputc", "fseeko64": "sim_fseek", "ftello64": "sim_ftell"},
           {"fgetc_unlocked": "sim_fgetc"}, {"getc_unlocked": "sim_fgetc"}]
INC = ["-I" + os.path.join(VERIF, p) for p in ("mri/inc/include",)] + ["-I" + REPO + "/include"] + \
      ["-I" + os.path.join(VERIF, p) for p in ("mri/inc/mri/include", "mri/inc/CrashCatcher/include")]
CBASE = ["gcc", "-std=gnu90", "-w", "-g", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-include", "stdlib.h"] + INC
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address",
       "-fsanitize=bounds,null,vla-bound,signed-integer-overflow,unreachable,return,integer-divide-by-zero",
       "-fno-sanitize-recover=all"]
OPT = ["-O2"]
MOCK_PREFIX = "mk_"
MOCK_SYMS = ("hook_fopen hook_fclose hook_fread hook_fgets hook_fseek hook_ftell hook_fwrite hook_malloc hook_realloc "
             "hook_free hook_printf hook_fprintf").split()


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:600], p.stdout[-4000:]))
    return p.stdout


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_bytes(paths):
    out = []
    for p in sorted(paths):
        with open(p, "rb") as f:
            out.append(p.encode() + b"\0" + f.read())
    return b"\1".join(out)


def headers():
    hs = []
    for d in (REPO + "/include", REPO + "/libCrashDebug/src", REPO + "/libcommon/src", REPO + "/libmocks/src", REPO + "/main"):
        hs += glob.glob(d + "/*.h")
    for root, _, fs in os.walk(os.path.join(VERIF, "mri/inc")):
        hs += [os.path.join(root, f) for f in fs if f.endswith(".h")]
    return hs


def cached(out, key, fn):
    """Runs fn(tmp) unless out already exists with this key."""
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return
    tmp = "%s.tmp%d" % (out, os.getpid())
    fn(tmp)
    os.replace(tmp, out)
    with open(kf + ".tmp%d" % os.getpid(), "w") as f:
        f.write(key)
    os.replace(kf + ".tmp%d" % os.getpid(), kf)


def nm(objs):
    d, u = set(), set()
    for line in run(["nm"] + objs).splitlines():
        m = re.match(r"^(?:[0-9a-f]{16}|\s{16}) (\w) (\S+)$", line)
        if not m:
            continue
        (u if m.group(1) == "U" else d).add(m.group(2)) if m.group(1) in "UTDBRCWV" else None
    return d, u


def build(variants=("opt", "san"), quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    hdr = tree_bytes(headers())
    srcs = sorted(glob.glob(REPO + "/libCrashDebug/src/*.c") + glob.glob(REPO + "/libcommon/src/*.c") + glob.glob(REPO + "/main/*.c"))
    mocks = sorted(glob.glob(REPO + "/libmocks/src/*.c"))
    if not srcs or not mocks:
        raise BuildError("no sources found in " + REPO)
    shims = [os.path.join(VERIF, "sim/api_shim.c")]
    simsrc = sorted(glob.glob(os.path.join(VERIF, "sim/*.cpp")))
    simhdr = tree_bytes(glob.glob(os.path.join(VERIF, "sim/*.h")))
    img_syms = set()
    for line in run(["nm", IMG]).splitlines():
        p = line.split()
        if len(p) == 3 and p[1] == "T" and p[2].startswith("__mri"):
            img_syms.add(p[2])
    bins = {}
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        jobs, objs = [], {v: [] for v in variants}
        mobjs = {v: [] for v in variants}
        for v in variants:
            flags = OPT if v == "opt" else SAN
            d = os.path.join(BUILD, v)
            os.makedirs(d, exist_ok=True)
            for s in srcs + mocks + shims:
                is_mock = s in mocks
                is_shim = s in shims
                o = os.path.join(d, ("mock_" if is_mock else "shim_" if is_shim else "repo_") + os.path.basename(s)[:-2] + ".o")
                key = digest(open(s, "rb").read(), hdr, CBASE, flags, sorted(SEAMS.items()), MOCK_PREFIX, s, "odr")

                def mk(tmp, s=s, flags=flags, is_mock=is_mock):
                    run(CBASE + flags + ["-c", s, "-o", tmp])
                    red = []
                    for a, b in SEAMS.items():
                        red += ["--redefine-sym", a + "=" + b]
                    if is_mock:
                        for a in MOCK_SYMS:
                            red += ["--redefine-sym", a + "=" + MOCK_PREFIX + a]
                    run(["objcopy", "--wildcard", "--localize-symbol=__odr_asan*"] + red + [tmp])
                    for al in ALIASES:
                        have = set(nm([tmp])[1])
                        more = [x for a, b in al.items() if a in have for x in ("--redefine-sym", a + "=" + b)]
                        if more:
                            run(["objcopy"] + more + [tmp])
                jobs.append(ex.submit(cached, o, key, mk))
                (mobjs if is_mock or is_shim else objs)[v].append(o)
        sobjs = []
        sd = os.path.join(BUILD, "simobj")
        os.makedirs(sd, exist_ok=True)
        for s in simsrc:
            o = os.path.join(sd, os.path.basename(s)[:-4] + ".o")
            fl = ["g++", "-std=c++17", "-O1", "-g", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"] + \
                 ["-I" + os.path.join(VERIF, "sim")]
            key = digest(open(s, "rb").read(), simhdr, fl)
            jobs.append(ex.submit(cached, o, key, lambda tmp, s=s, fl=fl: run(fl + ["-c", s, "-o", tmp])))
            sobjs.append(o)
        for j in jobs:
            j.result()
    for v in variants:
        d = os.path.join(BUILD, v)
        defs, undefs = nm(objs[v])
        if "crashdebug_main" not in defs:
            raise BuildError("main() not found")
        missing = sorted(s for s in img_syms if (s.startswith("__mriPlatform_") or s.startswith("__mriSemihost_")) and s not in defs)
        if missing:
            raise BuildError("the platform layer no longer defines: " + " ".join(missing))
        tramp = sorted(img_syms - defs)
        patch = sorted(img_syms & defs)
        src = ['.intel_syntax noprefix', '.text']
        for t in tramp:
            src += ['.globl %s' % t, '.type %s,@function' % t, '%s: jmp [rip + slot_%s]' % (t, t)]
        src += ['.data', '.balign 8']
        src += ['slot_%s: .quad 0' % t for t in tramp]
        src += ['.section .data.rel.ro,"aw"', '.balign 8', '.globl g_trampTable', 'g_trampTable:']
        for i, t in enumerate(tramp):
            src += ['.quad tn%d' % i, '.quad slot_%s' % t]
        src += ['.quad 0', '.quad 0', '.globl g_patchTable', 'g_patchTable:']
        for i, t in enumerate(patch):
            src += ['.quad pn%d' % i, '.quad %s' % t]
        src += ['.quad 0', '.quad 0', '.section .rodata']
        src += ['tn%d: .asciz "%s"' % (i, t) for i, t in enumerate(tramp)]
        src += ['pn%d: .asciz "%s"' % (i, t) for i, t in enumerate(patch)]
        src += ['.section .note.GNU-stack,"",@progbits', '']
        sfile = os.path.join(d, "mri_tramp.S")
        text = "\n".join(src)
        if not os.path.exists(sfile) or open(sfile).read() != text:
            open(sfile, "w").write(text)
        exe = os.path.join(d, "sim")
        allobjs = sobjs + objs[v] + mobjs[v]
        key = digest(*[open(o + ".key").read() for o in allobjs], text, v)
        link = ["g++", "-rdynamic"] + (["-fsanitize=address,undefined"] if v == "san" else [])
        def mklink(tmp):
            run(["gcc", "-c", sfile, "-o", tmp + ".tr.o"])
            run(link + ["-o", tmp] + allobjs + [tmp + ".tr.o", "-ldl"])
            os.unlink(tmp + ".tr.o")
        cached(exe, key, mklink)
        bins[v] = exe
    return bins


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        sys.stderr.write("BUILD-FAILED: %s\n" % e)
        sys.exit(2)
