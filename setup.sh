#!/bin/sh
# checks that the tools the framework needs are here; nothing has to be built
set -e
cd "$(dirname "$0")"
clang++ --version >/dev/null; g++ --version >/dev/null; test -x /usr/lib/llvm-18/bin/opt; c++filt --version >/dev/null
python3-vt -c 'import z3, numpy, sys; sys.path.insert(0, "."); import nv.kernels, nv.verify, nv.worker, nv.special, nv.report'
