"""Builds LLVM bitcode for every C translation unit of /repo's current working tree.

The unit list and the preprocessor configuration come from the project's own CMake configuration
(same options as the reference build); each unit is compiled by clang to unoptimised bitcode with
debug info. Nothing is executed from the repository apart from its CMake scripts; nothing is
written inside /repo.
"""
import json, os, shlex, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("HSA_REPO", "/repo")
COMMON = """-DHITLS_BUILD_GEN_INFO=ON -DHITLS_BUILD_PROFILE=full -DHITLS_CRYPTO_RAND_CB=ON
-DHITLS_EAL_INIT_OPTS=9 -DHITLS_CRYPTO_ASM_CHECK=ON
-DHITLS_CRYPTO_ENTROPY=ON -DHITLS_CRYPTO_ENTROPY_DEVRANDOM=ON -DHITLS_CRYPTO_ENTROPY_GETENTROPY=ON
-DHITLS_CRYPTO_ENTROPY_SYS=ON -DHITLS_CRYPTO_ENTROPY_HARDWARE=ON -DHITLS_CRYPTO_ENTROPY_NS_CPUJITTER=ON
-DHITLS_CRYPTO_DRBG_GM=ON -DHITLS_CRYPTO_ACVP_TESTS=ON -DHITLS_CRYPTO_DSA_GEN_PARA=ON
-DHITLS_CRYPTO_HSS_LMS=ON -DHITLS_BSL_UIO_SCTP=OFF
-DHITLS_BUILD_STATIC=ON -DHITLS_BUILD_SHARED=ON
-DHITLS_CRYPTO_SP800_STRICT_CHECK=ON -DHITLS_SM2_PRECOMPUTE_512K_TBL=OFF
-DHITLS_ASM_X8664=ON -DHITLS_PLATFORM_ENDIAN=little
-DHITLS_PKI_X509_CRL_LITE=ON -DHITLS_PKI_X509_VFY_CRL_LITE=ON
-D_HITLS_COMPILE_OPTIONS_DEL=-O2""".split()
CONFIGS = {
    "main": COMMON + ["-DHITLS_TLS_FEATURE_SM_TLS13=ON", "-DHITLS_BUILD_EXE=ON", "-DHITLS_CRYPTO_CMVP=ON",
                      "-DCMAKE_C_FLAGS=-fno-plt -O3", "-DCMAKE_SHARED_LINKER_FLAGS=-ldl", "-DCMAKE_EXE_LINKER_FLAGS=-ldl"],
    "iso": ["-DCMAKE_SKIP_RPATH=TRUE", "-C", "%s/testcode/config/cmake/CMVP/x86_64/CMVP_feature_config.cmake" % REPO,
            "-DCMAKE_C_FLAGS=-O3", "-DHITLS_BUNDLE_LIB=ON", "-DHITLS_CRYPTO_CMVP_ISO19790=ON"] + COMMON,
}
FLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-strict-aliasing", "-fsigned-char",
         "-fno-builtin", "-w"]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CC="gcc", CXX="g++",
             LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.pop("MAKEFLAGS", None)
    return e


def configure(work, config):
    d = os.path.join(work, "cfg_" + config)
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(["cmake", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + CONFIGS[config] + [REPO], cwd=d, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    db = os.path.join(d, "compile_commands.json")
    if r.returncode or not os.path.exists(db):
        raise BuildError("cmake configure failed:\n" + r.stdout[-2000:])
    units = {}
    for x in json.load(open(db)):
        if not x["file"].endswith(".c"):
            continue
        a = shlex.split(x["command"])
        keep, i = [], 1
        while i < len(a):
            t = a[i]
            if t in ("-I", "-D", "-isystem", "-include"):
                keep += [t, a[i + 1]]
                i += 1
            elif (t.startswith("-D") and "FORTIFY" not in t) or t.startswith("-I") or t.startswith("-std") or t.startswith("-U"):
                keep.append(t)
            elif t.startswith("-m") and not t.startswith("-mbranch"):
                keep.append(t)
            i += 1
        units.setdefault(x["file"], keep)
    return units


def build(work, config="main"):
    """Returns path of a file listing the bitcode files, and the number of units."""
    units = configure(work, config)
    bcdir = os.path.join(work, "bc_" + config)
    os.makedirs(bcdir, exist_ok=True)

    def one(item):
        f, keep = item
        out = os.path.join(bcdir, os.path.relpath(f, REPO).replace("/", "__") + ".bc")
        r = subprocess.run(["clang", "-c", "-emit-llvm"] + FLAGS + keep + ["-o", out, f], capture_output=True, text=True)
        return f, r.returncode, r.stderr, out

    outs, errs = [], []
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, rc, e, out in ex.map(one, sorted(units.items())):
            if rc:
                errs.append("%s: %s" % (f, e[:400]))
            else:
                outs.append(out)
    if errs:
        raise BuildError("clang could not compile %d unit(s): %s" % (len(errs), "; ".join(errs[:3])))
    lst = os.path.join(work, "list_" + config)
    open(lst, "w").write("\n".join(outs) + "\n")
    return lst, len(outs)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "main"), time.time() - t)
