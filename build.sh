#!/bin/bash
# Builds, from the current working tree of /repo: cspc, csp-lint, the std library copy and the std
# drivers; and from /verif: the simulator and the stub tools. Everything goes to /verif/build (ignored by git).
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8 CC=gcc
unset CFLAGS LDFLAGS MAKEFLAGS PKG_CONFIG PKG_CONFIG_PATH
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"; B="${SIM_BUILD:-$V/build}"; R="${SIM_REPO:-/repo}"
mkdir -p "$B/bin" "$B/obj" "$B/drv" "$B/log"
exec 9>"$B/lock"; flock 9
cd "$B" || exit 2
rc=0
build_repo() {
  key=$(cd "$R" && { find Makefile configure version* src -type f \( -name '*.o' -prune -o -print \) 2>/dev/null | LC_ALL=C sort | xargs sha1sum; find "$V/drivers" "$V/stubs" "$V/build.sh" -type f | LC_ALL=C sort | xargs sha1sum; } | sha1sum)
  if [ -f repo.key ] && [ "$(cat repo.key)" = "$key" ]; then return 0; fi
  rm -f repo.key; rm -rf "$B/src" "$B/std" "$B/exe"; mkdir -p "$B/src"
  ( cd "$R" && tar cf - --exclude=.git --exclude=./build --exclude='*.o' Makefile configure $(ls -d version* 2>/dev/null) src ) | tar xf - -C "$B/src" || return 1
  rm -f "$B/src/src/compiler/version.h"
  mkdir -p "$B/src/tests/lib/acutest"
  cd "$B/src" || return 1
  ./configure >"$B/log/configure" 2>&1 || { cat "$B/log/configure" >&2; return 1; }
  # compile all objects in parallel, then link cspc and csp-lint
  make -j8 cspc csp-lint std >"$B/log/make" 2>&1 || { tail -40 "$B/log/make" >&2; return 1; }
  cp build/bin/cspc build/bin/csp-lint "$B/bin/" || return 1
  cp -a "$B/src/src/std" "$B/std" || return 1
  for s in tool stubprog clr launch; do gcc -O1 -static -nostdlib -ffreestanding -fno-stack-protector -fno-pic -no-pie -o "$B/bin/$s" "$V/stubs/$s.c" >"$B/log/$s" 2>&1 || { cat "$B/log/$s" >&2; return 1; }; done
  # programs to be debugged
  for s in a b c; do gcc -O1 -static -nostdlib -ffreestanding -fno-stack-protector -fno-pic -no-pie -fcf-protection=none -fno-builtin -fno-tree-loop-distribute-patterns -ffixed-r12 -ffixed-r13 -Wl,-z,norelro -Wl,--build-id=none -o "$B/bin/inf_$s" "$V/drivers/inf/$s.c" >"$B/log/inf_$s" 2>&1 || { cat "$B/log/inf_$s" >&2; return 1; }; done
  # std drivers: compiled by the cspc just built, with its own std
  mkdir -p "$B/home/.cache"
  rm -rf "$B/drv"; mkdir -p "$B/drv"; export HOME="$B/home"
  pids=""; for d in "$V"/drivers/*.csp; do [ -f "$d" ] || continue; n=$(basename "$d" .csp)
    ( cd "$V/drivers" && timeout 60 "$B/bin/cspc" build "$d" -p "$B/std" -o "$B/drv/$n" --silent </dev/null >"$B/log/drv.$n" 2>&1; [ -x "$B/drv/$n" ] || { echo "driver $n does not compile:" >&2; tail -20 "$B/log/drv.$n" >&2; exit 0; } ) & pids="$pids $!"; done
  for p in $pids; do wait $p || return 1; done
  echo "$key" >"$B/repo.key"
}
build_sim() {
  rm -rf "$B/corpus"; cp -r "$V/corpus" "$B/corpus" || return 1
  cd "$B"; pids=""; need=0
  hk=$(cat "$V"/sim/*.h | sha1sum | cut -c1-12)
  for f in "$V"/sim/*.cpp; do n=$(basename $f .cpp); k=$hk-$(sha1sum <$f | cut -c1-12)
    if [ -f obj/$n.o ] && [ "$(cat obj/$n.key 2>/dev/null)" = "$k" ]; then continue; fi
    need=1; ( rm -f obj/$n.key; g++ -std=c++20 -O1 -g0 -w -c $f -o obj/$n.o >log/sim.$n 2>&1 && echo $k >obj/$n.key || { head -30 log/sim.$n >&2; exit 1; } ) & pids="$pids $!"; done
  for p in $pids; do wait $p || return 1; done
  if [ $need = 1 ] || [ ! -x bin/sim ]; then g++ -o bin/sim.new obj/*.o >log/simlink 2>&1 && mv bin/sim.new bin/sim || { head -30 log/simlink >&2; return 1; }; fi
}
build_sim & sp=$!
build_repo || rc=1
wait $sp || rc=1
[ $rc = 0 ] || { echo "build failed" >&2; exit 2; }
exit 0
