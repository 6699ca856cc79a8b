#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current sources, offline.

All of libceres is compiled with clang's -fsanitize=thread instrumentation and
linked against the simulator's own __tsan_* runtime (sim/rt), never against
LLVM's. Objects are cached by the content of everything they include.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
CXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-fno-pie", "-w",
          "-I" + VERIF + "/shim", "-I" + VERIF + "/sim/rt"]
RT = ["-O2"]
LIB = ["-O1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
       "-DVERIF_SHIM_DCHECKS", "-isystem", "/usr/include/eigen3",
       "-I" + REPO + "/internal", "-I" + REPO + "/include"]
SKIP = {"evaluator_test_utils.cc", "numeric_diff_test_utils.cc"}
# Longest compilations first.
SLOW = ["covariance_impl", "dogleg_strategy", "schur_complement_solver", "schur_eliminator_d_d_d",
        "polynomial", "dense_qr", "dense_cholesky", "problem_impl", "block_jacobi_preconditioner"]


def library_sources():
    d = REPO + "/internal/ceres"
    cm = open(d + "/CMakeLists.txt").read()
    names = set(re.findall(r"^\s+([A-Za-z_0-9]+\.cc)\s*$", cm, re.M)) - SKIP
    src = [d + "/" + n for n in sorted(names) if os.path.exists(d + "/" + n) and not n.endswith("_test.cc")]
    for g in ("schur_eliminator_d_d_d.cc", "partitioned_matrix_view_d_d_d.cc"):
        src.append(d + "/generated/" + g)
    return src


def sha(path, memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in memo:
        with open(path, "rb") as f:
            memo[key] = hashlib.sha1(f.read()).hexdigest()
    return memo[key]


def flags_for(src):
    if src.startswith(VERIF + "/sim/rt/"):
        return COMMON + RT
    return COMMON + LIB


def compile_one(src):
    flags = flags_for(src)
    tag = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:12]
    base = os.path.join(OUT, os.path.basename(src)[:-3] + "-" + tag)
    obj, meta, dep = base + ".o", base + ".json", base + ".d"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(sha(p) == h for p, h in m.items()):
                return obj, None, 0.0
        except ValueError:
            pass
    t = time.time()
    r = subprocess.run([CXX] + flags + ["-MMD", "-MF", dep, "-c", src, "-o", obj + ".tmp"],
                       capture_output=True, text=True)
    if r.returncode != 0:
        return obj, src + ":\n" + r.stderr[-4000:], time.time() - t
    os.replace(obj + ".tmp", obj)
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({p: sha(p) for p in deps if p.startswith(REPO) or p.startswith(VERIF)}, open(meta, "w"))
    os.unlink(dep)
    return obj, None, time.time() - t


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = library_sources()
        for d in ("rt", "wl"):
            p = VERIF + "/sim/" + d
            src += sorted(p + "/" + f for f in os.listdir(p) if f.endswith(".cc"))
        def rank(s):
            b = os.path.basename(s)[:-3]
            return SLOW.index(b) if b in SLOW else (len(SLOW) if "/wl/" in s else len(SLOW) + 1)
        src.sort(key=rank)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(compile_one, src))
        errs = [e for _, e, _ in res if e]
        if errs:
            sys.stderr.write("BUILD FAILED\n" + "\n".join(errs[:5]) + "\n")
            return None, time.time() - t0
        objs = sorted(o for o, _, _ in res)
        h = hashlib.sha1()
        for o in objs:
            h.update(sha(o).encode())
        exe = os.path.join(OUT, "simceres-" + h.hexdigest()[:16])
        if not os.path.exists(exe):
            for f in os.listdir(OUT):
                if f.startswith("simceres-"):
                    os.unlink(os.path.join(OUT, f))
            r = subprocess.run([CXX, "-no-pie", "-o", exe + ".tmp"] + objs +
                               ["-Wl,-Bstatic", "-Wl,--start-group"] +
                               ["-labsl_" + l for l in ABSL] +
                               ["-Wl,--end-group", "-Wl,-Bdynamic", "-lpthread", "-ldl", "-lm"],
                               capture_output=True, text=True)
            if r.returncode != 0:
                sys.stderr.write("LINK FAILED\n" + r.stderr[-6000:] + "\n")
                return None, time.time() - t0
            os.replace(exe + ".tmp", exe)
        if verbose:
            n = sum(1 for _, _, t in res if t > 0)
            print("built %s: %d compiled, %d cached, %.1f s" % (exe, n, len(res) - n, time.time() - t0))
        return exe, time.time() - t0


ABSL = ["hash", "raw_hash_set", "hashtablez_sampler", "city", "low_level_hash", "bad_optional_access",
        "bad_variant_access", "str_format_internal", "strings", "strings_internal", "time", "time_zone",
        "civil_time", "int128", "base", "raw_logging_internal", "log_severity", "spinlock_wait",
        "throw_delegate", "exponential_biased", "synchronization", "graphcycles_internal", "symbolize",
        "stacktrace", "debugging_internal", "demangle_internal", "malloc_internal"]

if __name__ == "__main__":
    exe, _ = build(True)
    sys.exit(0 if exe else 2)
