#!/bin/bash
# replay.sh <property> <input file> <entry> [name=value ...]: run a counterexample on the natively compiled code
here=$(cd "$(dirname "$0")" && pwd)
exec python3 "$here/replay.py" "$@"
