#!/usr/bin/env python3
"""Build /repo's working tree (vctrs) into a private library.

usage: build.py VARIANT     VARIANT in {plain, san, cov}
Prints the directory that holds lib/ (the R library) and, for san, libmon.so.

The build is keyed by the content of the package sources, the monitor sources
and this file, so a changed tree is always rebuilt.  Nothing is written in /repo.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ROOT = os.path.join(HERE, ".build")
PKG = ["DESCRIPTION", "NAMESPACE", "LICENSE", "LICENSE.note", "NEWS.md", "configure", "cleanup"]
DIRS = ["R", "src", "inst", "data", "tools"]
SKIP = (".o", ".so", ".d")

WRAPS = """Rf_allocVector Rf_allocArray Rf_allocSExp Rf_mkNamed Rf_duplicate Rf_shallow_duplicate
Rf_cons Rf_lcons Rf_ScalarInteger Rf_ScalarReal Rf_ScalarString Rf_mkString Rf_coerceVector
Rf_lengthgets Rf_xlengthgets Rf_asCharacterFactor Rf_match R_MakeExternalPtr Rf_mkChar Rf_mkCharCE
Rf_mkCharLenCE Rf_getAttrib Rf_setAttrib Rf_copyMostAttrib Rf_defineVar STRING_ELT VECTOR_ELT
SET_STRING_ELT SET_VECTOR_ELT SET_ATTRIB SET_OBJECT""".split()

MAKEVARS = {
    "plain": "CC = gcc\nCFLAGS = -g -O1 -fno-omit-frame-pointer\n",
    "san": "CC = gcc\n"
           "CFLAGS = -g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined"
           " -fsanitize=float-cast-overflow -fno-sanitize-recover=all\n"
           "LDFLAGS = -fsanitize=address,undefined " + " ".join("-Wl,--wrap=" + w for w in WRAPS) + "\n",
    "cov": "CC = gcc\nCFLAGS = -g -O0 --coverage\nLDFLAGS = --coverage\n",
}


def files():
    for f in PKG:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            yield f
    for d in DIRS:
        for base, dirs, fs in sorted(os.walk(os.path.join(REPO, d))):
            dirs.sort()
            for f in sorted(fs):
                if not f.endswith(SKIP):
                    yield os.path.relpath(os.path.join(base, f), REPO)


def digest(variant):
    h = hashlib.sha256()
    h.update(variant.encode() + MAKEVARS[variant].encode())
    for f in ["bin/build.py", "mon/libmon.c", "mon/selftest.c", "mon/probe.c", "mon/capi.c"]:
        p = os.path.join(HERE, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    for f in files():
        h.update(f.encode() + b"\0" + open(os.path.join(REPO, f), "rb").read())
    return h.hexdigest()[:16]


def run(cmd, log, env=None):
    with open(log, "ab") as w:
        r = subprocess.run(cmd, stdout=w, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        sys.stderr.write(open(log, errors="replace").read()[-6000:])
        sys.stderr.write(f"\nbuild failed: {' '.join(cmd)}\n")
        sys.exit(3)


def main():
    variant = sys.argv[1]
    os.makedirs(ROOT, exist_ok=True)
    dest = os.path.join(ROOT, f"{variant}-{digest(variant)}")
    with open(os.path.join(ROOT, f"{variant}.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dest, "OK")):
            for old in os.listdir(ROOT):  # builds of other trees go, unless a check running now may use them
                if old == os.path.basename(dest) or (old.startswith(variant + "-") and
                                                     time.time() - os.path.getmtime(os.path.join(ROOT, old)) > 1500):
                    shutil.rmtree(os.path.join(ROOT, old), ignore_errors=True)
            pkg, lib = os.path.join(dest, "pkg"), os.path.join(dest, "lib")
            os.makedirs(lib)
            for f in files():
                t = os.path.join(pkg, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), t)
            mk = os.path.join(dest, "Makevars.user")
            with open(mk, "w") as w:
                w.write(".DEFAULT_GOAL := all\n" + MAKEVARS[variant])
            env = dict(os.environ, R_MAKEVARS_USER=mk, MAKEFLAGS="-j8", LC_ALL="C.UTF-8", TZ="UTC",
                       R_LIBS=lib, R_LIBS_USER="/nonexistent")
            for k in ("LD_PRELOAD", "ASAN_OPTIONS"):
                env.pop(k, None)
            log = os.path.join(dest, "log")
            inc = "-I" + subprocess.run(["R", "RHOME"], capture_output=True, text=True).stdout.strip() + "/include"
            inc = [inc, "-I/usr/share/R/include"]
            if variant == "san":
                run(["gcc", "-shared", "-fPIC", "-O1", "-g", *inc, "-o", os.path.join(dest, "libmon.so"),
                     os.path.join(HERE, "mon/libmon.c")], log, env)
                run(["gcc", "-shared", "-fPIC", "-O1", "-g", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all", *inc, "-o", os.path.join(dest, "selftest.so"),
                     os.path.join(HERE, "mon/selftest.c")], log, env)
            run(["gcc", "-shared", "-fPIC", "-O1", "-g", *inc, "-o", os.path.join(dest, "probe.so"),
                 os.path.join(HERE, "mon/probe.c")], log, env)
            run(["R", "CMD", "INSTALL", "--no-docs", "--no-multiarch", "--no-lock", "--no-byte-compile",
                 "--no-test-load", "--library=" + lib, pkg], log, env)
            if os.path.exists(os.path.join(pkg, "inst/include/vctrs.c")):
                subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-g", *inc, "-I" + os.path.join(pkg, "inst/include"),
                                "-o", os.path.join(dest, "capi.so"), os.path.join(HERE, "mon/capi.c")],
                               stderr=open(log, "ab"), env=env)  # K01 reports it when this fails
            if variant != "cov":
                shutil.rmtree(pkg)
            open(os.path.join(dest, "OK"), "w").close()
    print(dest)


main()
