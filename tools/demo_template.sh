#!/bin/bash
# Builds ceres-solver from /repo's working tree (Eigen only, -O0) and demo.cc next to this script; runs it.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gen/ceres/internal" "$W/o"
sed -E -e 's/@(CERES_USE_EIGEN_SPARSE|CERES_NO_CUDA|CERES_NO_CUDSS|CERES_NO_LAPACK|CERES_NO_SUITESPARSE|CERES_NO_CHOLMOD_PARTITION|CERES_NO_EIGEN_METIS|CERES_NO_ACCELERATE_SPARSE|CERES_RESTRICT_SCHUR_SPECIALIZATION)@/#define \1/' \
    -e 's/@[A-Z_]+@//' "$REPO/cmake/config.h.in" > "$W/gen/ceres/internal/config.h"
printf '#define CERES_EXPORT\n#define CERES_NO_EXPORT\n#define CERES_DEPRECATED\n' > "$W/gen/ceres/internal/export.h"
export FLAGS="-std=c++17 -O0 -w -pthread -DCERES_STATIC_DEFINE -I$HERE/shim -I$W/gen -I$REPO/internal -I$REPO/include -isystem /usr/include/eigen3"
cp "$HERE/demo.cc" "$W/demo.cc"
cd "$REPO/internal/ceres"
{ ls *.cc | grep -v -E '_test\.cc$|_benchmark\.cc$|_test_utils\.cc$|test_util\.cc$|\.cu\.cc$'; ls generated/schur_eliminator_d_d_d.cc generated/partitioned_matrix_view_d_d_d.cc; echo "$W/demo.cc"; } |
  W="$W" xargs -P "$(nproc)" -I{} sh -c 'clang++ $FLAGS -c {} -o "$W/o/$(basename {} .cc).o" || touch "$W/failed"'
[ -e "$W/failed" ] && { echo "build failed"; exit 2; }
cd "$REPO"
LIBS=""; for l in str_format_internal hash city bad_variant_access low_level_hash raw_hash_set hashtablez_sampler cord cordz_info cord_internal cordz_functions exponential_biased cordz_handle synchronization graphcycles_internal stacktrace symbolize debugging_internal demangle_internal malloc_internal bad_optional_access time civil_time time_zone strings strings_internal base spinlock_wait int128 throw_delegate raw_logging_internal log_severity; do LIBS="$LIBS -labsl_$l"; done
clang++ -pthread -o "$W/demo" "$W"/o/*.o $LIBS -lrt || exit 2
timeout 100 "$W/demo"
