"""Builds the library from /repo's working tree into a content-addressed
directory of its own (nothing is written under /repo)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile

REPO = os.environ.get("NMT_VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

CONFIG_H = """
#define HAVE_DLFCN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBM 1
#define HAVE_LIBGSL 1
#define HAVE_LIBGSLCBLAS 1
#define HAVE_LIBCFITSIO 1
#define HAVE_LIBCHEALPIX 1
#define HAVE_LIBFFTW3 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define STDC_HEADERS 1
#define PACKAGE "namaster"
#define PACKAGE_NAME "namaster"
#define PACKAGE_STRING "namaster 0.0"
#define PACKAGE_TARNAME "namaster"
#define PACKAGE_VERSION "0.0"
#define VERSION "0.0"
"""

FLAGS = {
    "opt": (["-O3", "-fPIC", "-fopenmp"], ["-O1", "-w", "-fPIC", "-fopenmp"],
            ["-shared", "-fopenmp"]),
    "asan": (["-O1", "-g", "-fPIC", "-fopenmp", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer",
              "-fno-sanitize=alignment", "-fsanitize=float-cast-overflow"],
             ["-O1", "-g", "-w", "-fPIC", "-fopenmp", "-fsanitize=address",
              "-fno-omit-frame-pointer"],
             ["-shared", "-fopenmp", "-fsanitize=address,undefined"]),
}


class BuildError(Exception):
    pass


def sources():
    fs = sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*.h")
                + glob.glob(REPO + "/pymaster/*.py")
                + [REPO + "/pymaster/namaster_wrap.c"])
    return fs


def digest(variant):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], CONFIG_H)).encode())
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _run(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(" ".join(c) + "\n" + out.decode(errors="replace"))


def build(variant="opt"):
    """Returns a directory to be put on PYTHONPATH."""
    base = os.path.join(VERIF, "build")
    try:
        os.makedirs(base, exist_ok=True)
        with open(os.path.join(base, ".w"), "w"):
            pass
    except OSError:
        base = os.path.join(tempfile.gettempdir(), "nmt_verif_build")
        os.makedirs(base, exist_ok=True)
    key = digest(variant)
    final = os.path.join(base, f"{variant}-{key}")
    with open(os.path.join(base, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(final, ".ok")):
            os.utime(final)
            return final
        tmp = final + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(final, ignore_errors=True)
        os.makedirs(tmp + "/pymaster")
        os.makedirs(tmp + "/obj")
        for f in glob.glob(REPO + "/pymaster/*.py"):
            shutil.copy(f, tmp + "/pymaster/")
        with open(tmp + "/obj/config.h", "w") as fh:
            fh.write(CONFIG_H)
        npinc = subprocess.run(
            [PY, "-c", "import sysconfig,numpy;"
             "print(sysconfig.get_paths()['include']);"
             "print(numpy.get_include())"],
            check=True, capture_output=True, text=True).stdout.split("\n")
        inc = ["-I" + REPO + "/src", "-I" + tmp + "/obj",
               "-I" + npinc[0], "-I" + npinc[1]]
        cflags, wflags, lflags = FLAGS[variant]
        cmds = []
        objs = []
        for f in sorted(glob.glob(REPO + "/src/*.c")):
            o = tmp + "/obj/" + os.path.basename(f)[:-2] + ".o"
            objs.append(o)
            cmds.append(["gcc", "-c"] + cflags + inc + [f, "-o", o])
        o = tmp + "/obj/wrap.o"
        objs.append(o)
        cmds.append(["gcc", "-c"] + wflags + inc
                    + [REPO + "/pymaster/namaster_wrap.c", "-o", o])
        _run(cmds)
        _run([["gcc"] + lflags + objs
              + ["-o", tmp + "/_nmtlib.so", "-L" + REPO + "/_deps/lib",
                 "-lchealpix", "-lfftw3_omp",
                 "-lfftw3", "-lgsl", "-lgslcblas", "-lcfitsio", "-lm"]])
        shutil.rmtree(tmp + "/obj")
        open(tmp + "/.ok", "w").close()
        os.rename(tmp, final)
        # keep the disk bounded
        old = sorted((d for d in glob.glob(base + "/*-*")
                      if os.path.isdir(d) and d != final),
                     key=os.path.getmtime)
        for d in old[:-5]:
            shutil.rmtree(d, ignore_errors=True)
    return final


if __name__ == "__main__":
    import sys
    for v in (sys.argv[1:] or ["opt"]):
        print(build(v))
