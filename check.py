#!/usr/bin/env python3
"""Builds ceres-solver from /repo's working tree plus one property harness, and runs it.

  check.py setup            build the library and every harness (fills the ccache)
  check.py C01              build what C01 needs, run its check (VERIF_TIER, VERIF_SEED)
  check.py C01 --replay F   re-run a saved failing case
  any further arguments are passed to the harness (--only SUB, --scale X, ...)

REPO=/path overrides /repo (used while developing, with seeded bugs).
"""
import glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "_build"))
ABSL = ("-labsl_str_format_internal -labsl_hash -labsl_city -labsl_bad_variant_access "
        "-labsl_low_level_hash -labsl_raw_hash_set -labsl_hashtablez_sampler -labsl_cord "
        "-labsl_cordz_info -labsl_cord_internal -labsl_cordz_functions -labsl_exponential_biased "
        "-labsl_cordz_handle -labsl_synchronization -labsl_graphcycles_internal -labsl_stacktrace "
        "-labsl_symbolize -labsl_debugging_internal -labsl_demangle_internal -labsl_malloc_internal "
        "-labsl_bad_optional_access -labsl_time -labsl_civil_time -labsl_time_zone -labsl_strings "
        "-labsl_strings_internal -labsl_base -labsl_spinlock_wait -labsl_int128 -labsl_throw_delegate "
        "-labsl_raw_logging_internal -labsl_log_severity -lrt -lpthread")
OPTIONS = {"CERES_USE_EIGEN_SPARSE", "CERES_NO_CUDA", "CERES_NO_CUDSS", "CERES_NO_LAPACK",
           "CERES_NO_SUITESPARSE", "CERES_NO_CHOLMOD_PARTITION", "CERES_NO_EIGEN_METIS",
           "CERES_NO_ACCELERATE_SPARSE"}
FLAVORS = {
    # Assertions (ours, Eigen's, DCHECKs) stay on in both flavors.
    "rel": "-O1 -g1 -D_GLIBCXX_ASSERTIONS",
    "asan": "-O1 -g1 -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined -fno-sanitize=vptr,function "
            "-fno-sanitize-recover=undefined -fno-omit-frame-pointer",
    "tsan": "-O1 -g1 -fsanitize=thread",
}


def config_h():
    """config.h as the project's CMake makes it for an Eigen-only static build."""
    out = []
    for line in open(f"{REPO}/cmake/config.h.in"):
        def sub(m):
            return ("#define " if m.group(1) in OPTIONS else "// #define ") + m.group(1)
        out.append(re.sub(r"@([A-Z_]+)@", sub, line))
    return "".join(out)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def harness_spec(prop):
    """Reads `// pbt-build: key=value ...` from a harness source."""
    spec = {"flavor": "rel", "flags": "", "extra": ""}
    with open(f"{VERIF}/props/{prop}.cc") as f:
        for line in f:
            m = re.match(r"//\s*pbt-build:\s*(\w+)=(.*)$", line)
            if m:
                spec[m.group(1)] = m.group(2).strip()
    return spec


def generate(props):
    gen = f"{BUILD}/gen"
    write_if_changed(f"{gen}/ceres/internal/config.h", config_h())
    write_if_changed(f"{gen}/ceres/internal/export.h",
                     "#ifndef CERES_EXPORT_H\n#define CERES_EXPORT_H\n#define CERES_EXPORT\n"
                     "#define CERES_NO_EXPORT\n#define CERES_DEPRECATED __attribute__((__deprecated__))\n#endif\n")
    src = f"{REPO}/internal/ceres"
    libs = []
    for p in sorted(glob.glob(f"{src}/*.cc") + glob.glob(f"{src}/generated/*.cc")):
        n = os.path.relpath(p, src)
        if n.endswith(("_test.cc", "_benchmark.cc", ".cu.cc", "_test_utils.cc", "test_util.cc")):
            continue
        libs.append(n)

    def weight(n):  # slow translation units first
        if "covariance_impl" in n: return 0
        if "generated/schur" in n: return 1
        if n in ("polynomial.cc", "dogleg_strategy.cc", "dense_cholesky.cc", "schur_complement_solver.cc"): return 2
        return 3
    libs.sort(key=lambda n: (weight(n), n))
    ccache = "ccache" if os.path.exists("/usr/bin/ccache") and not os.environ.get("VERIF_NO_CCACHE") else ""
    inc = (f"-I{VERIF}/shim -I{gen} -I{REPO}/internal -I{REPO}/include -I{VERIF}/lib "
           f"-isystem /usr/include/eigen3 -DCERES_STATIC_DEFINE -DVERIF_REPO=\\\"{REPO}\\\"")
    # The repository's own sources must not see VERIF_REPO (keeps cache keys equal).
    libinc = inc.rsplit(" ", 1)[0].replace(f" -I{VERIF}/lib", "")
    L = [f"base = -std=c++17 -w -pthread\n",
         "rule cc\n  command = $launch clang++ $base $flags -MMD -MF $out.d -c $in -o $out\n"
         "  depfile = $out.d\n  deps = gcc\n  description = CC $out\n",
         "rule ar\n  command = rm -f $out && ar rcs $out $in\n  description = AR $out\n",
         "rule link\n  command = clang++ $flags -fuse-ld=lld -o $out $in $libs\n  description = LINK $out\n",
         f"launch = {ccache}\n"]
    flavors = set()
    for p in props:
        s = harness_spec(p)
        f = s["flavor"]
        flavors.add(f)
        L.append(f"build {f}/props/{p}.o: cc {VERIF}/props/{p}.cc\n  flags = {FLAVORS[f]} {s['flags']} {inc}\n")
        extra = []
        lib = "" if s.get("lib") == "no" else f"{f}/libceres.a"
        for e in s["extra"].split():
            e, _, eflags = e.partition(":")
            o = f"{f}/props/{p}_{os.path.basename(e)}.o"
            ep = e.replace("$REPO", REPO)
            ep = ep if ep.startswith("/") else f"{VERIF}/props/{ep}"
            L.append(f"build {o}: cc {ep}\n  flags = {FLAVORS[f]} {s['flags']} {eflags} {inc}\n")
            extra.append(o)
        L.append(f"build bin/{p}: link {f}/props/{p}.o {' '.join(extra)} {f}/pbt.o {lib}\n"
                 f"  flags = {FLAVORS[f]}\n  libs = {ABSL} {s.get('libs', '')}\n")
    for f in sorted(flavors):
        objs = []
        for n in libs:
            o = f"{f}/ceres/{n[:-3]}.o"
            objs.append(o)
            L.append(f"build {o}: cc {src}/{n}\n  flags = {FLAVORS[f]} {libinc}\n")
        L.append(f"build {f}/libceres.a: ar {' '.join(objs)}\n")
        L.append(f"build {f}/pbt.o: cc {VERIF}/lib/pbt.cc\n  flags = {FLAVORS[f]} -I{VERIF}/lib\n")
    write_if_changed(f"{BUILD}/build.ninja", "\n".join(L))


def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=f"{VERIF}/_build/ccache", CCACHE_COMPILERCHECK="string:clang-18",
             CCACHE_MAXSIZE="6G", CCACHE_NOHASHDIR="1")
    e.pop("CCACHE_DISABLE", None)
    return e


def build(targets, allprops):
    generate(allprops)
    t = time.time()
    r = subprocess.run(["ninja", "-C", BUILD, "-k", "0"] + targets, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        print(r.stdout[-6000:])
    return r.returncode, time.time() - t


def all_props():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(f"{VERIF}/props/[A-Z][0-9]*.cc")
                  if re.fullmatch(r"[A-Z][0-9]{2,3}", os.path.basename(p)[:-3]))


def main():
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    cmd, rest = sys.argv[1], sys.argv[2:]
    props = all_props()
    if cmd == "setup":
        rc, t = build([f"bin/{p}" for p in (rest or props)], props)
        print(f"setup: build {'ok' if rc == 0 else 'FAILED'} in {t:.0f} s")
        sys.exit(1 if rc else 0)
    prop = cmd
    rc, t = build([f"bin/{prop}"], props)
    if rc:
        print(f"{prop}: the build failed; no verdict")
        sys.exit(2)
    out = os.path.join(VERIF, "_out", prop)
    os.makedirs(out, exist_ok=True)
    e = env()
    e["PBT_KNOWN"] = f"{VERIF}/known_findings.txt"
    e.setdefault("MALLOC_PERTURB_", "128")  # fresh memory holds 0x7f bytes, freed memory 0x80
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")
    e.setdefault("TSAN_OPTIONS", "halt_on_error=1:abort_on_error=1:report_thread_leaks=0:die_after_fork=0")
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0")
    args = [f"{BUILD}/bin/{prop}", "--dir", out]
    if "--replay" not in rest:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        args += ["--evidence", f"{VERIF}/evidence/{prop}.json"]
    print(f"{prop}: built in {t:.0f} s", flush=True)
    sys.exit(subprocess.run(args + rest, env=e).returncode)


if __name__ == "__main__":
    main()
