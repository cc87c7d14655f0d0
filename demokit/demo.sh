#!/bin/bash
# Run in the repository after its build.  Compiles demo.cpp with the sources it needs
# (first line of demo.cpp: "// SRC: ...") in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'find "$W" -delete' EXIT
SRC=$(sed -n '1s,^// SRC:,,p' "$D/demo.cpp")
FL=$(sed -n '2s,^// FLAGS:,,p' "$D/demo.cpp")
pids=()
for s in "$D/demo.cpp" $(for f in $SRC; do echo "$R/distributed_vector_ole/$f"; done); do
  x=""
  case "$s" in *gf128.cpp) x="-DUSE_ASM -mpclmul -msse4.1";; esac
  /usr/bin/g++ -std=c++17 -O1 -w -fopenmp $FL $x -I "$R" -isystem "$D/kit" -isystem /usr/include/eigen3 -include "$D/kit/prelude.h" -c "$s" -o "$W/$(basename "$s").o" &
  pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "DEMO: does not compile"; exit 2; }; done
L=""
for l in raw_hash_set hash city low_level_hash hashtablez_sampler exponential_biased synchronization strings strings_internal int128 throw_delegate bad_optional_access bad_variant_access raw_logging_internal base time time_zone spinlock_wait malloc_internal stacktrace symbolize debugging_internal demangle_internal graphcycles_internal; do [ -e /usr/lib/x86_64-linux-gnu/libabsl_$l.a ] || [ -e /usr/lib/x86_64-linux-gnu/libabsl_$l.so ] && L="$L -labsl_$l"; done
/usr/bin/g++ -fopenmp $FL -o "$W/prog" "$W"/*.o -Wl,--start-group $L -Wl,--end-group -lntl -lgmp -lcrypto -lpthread || { echo "DEMO: does not link"; exit 2; }
cd "$W" && timeout 200 ./prog
