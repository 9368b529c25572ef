#!/bin/bash
# Extract the bitcode of the precompiled standard library (pinned repo toolchain) as textual IR.
set -e
OUT=$1
TC=${2:-nightly-2025-05-06}
mkdir -p "$OUT"
ROOT=$(RUSTUP_TOOLCHAIN=$TC rustc --print sysroot)
LIB=$ROOT/lib/rustlib/x86_64-unknown-linux-gnu/lib
T=$(RUSTUP_TOOLCHAIN=nightly rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
W=$(mktemp -d)
one() {
  lib=$1; n=$(basename "$lib" .rlib); d=$W/$n; mkdir -p "$d"; cd "$d"; ar x "$lib"
  i=0
  for o in *.o; do
    "$T/llvm-objcopy" -O binary --only-section=.llvmbc --set-section-flags .llvmbc=alloc "$o" "$d/x.bc" 2>/dev/null || continue
    [ -s "$d/x.bc" ] || continue
    "$T/llvm-dis" "$d/x.bc" -o "$OUT/$n.$i.ll" 2>/dev/null || continue
    i=$((i+1))
  done
}
export -f one; export W T OUT
for c in core alloc std hashbrown memchr std_detect panic_abort miniz_oxide rustc_demangle addr2line gimli cfg_if libc unwind adler2 object compiler_builtins; do
  for l in "$LIB"/lib$c-*.rlib; do [ -e "$l" ] && echo "$l"; done
done | xargs -P 8 -I{} bash -c 'one {}'
cd /; rm -rf "$W"
ls "$OUT"/*.ll | wc -l
