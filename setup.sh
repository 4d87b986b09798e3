#!/bin/bash
# Nothing to compile (pure Python): checks the interpreter, the library under
# test and the independent oracles.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
chmod +x run.sh
exec ./run.sh SELFTEST
