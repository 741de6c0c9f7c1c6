#!/bin/bash
# Builds the extractor into /verif/.build (ignored by git). Idempotent.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../.build}
mkdir -p "$out"
if [ -x "$out/cmaext" ] && [ "$out/cmaext" -nt "$here/cmaext.cc" ]; then exit 0; fi
exec 9>"$out/.lock"; flock 9
if [ -x "$out/cmaext" ] && [ "$out/cmaext" -nt "$here/cmaext.cc" ]; then exit 0; fi
LLVM=$(llvm-config-18 --prefix 2>/dev/null || llvm-config --prefix)
"$LLVM/bin/clang++" -std=c++17 -O1 -fno-rtti -fno-exceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I"$LLVM/include" "$here/cmaext.cc" -o "$out/cmaext.tmp$$" \
  -L"$LLVM/lib" -Wl,-rpath,"$LLVM/lib" -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out/cmaext.tmp$$" "$out/cmaext"
