#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the harness
# is Python.  Verify that both are available.
cd "$(dirname "$0")" || exit 2
set -e
test -x /usr/local/bin/tlc
/opt/venv/bin/python -c "import numpy, sympy"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
for f in specs/*.tla; do ln -s "$PWD/$f" "$d/"; done
cat > "$d/MC.cfg" <<'C'
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Sampling = FALSE
  MinN = 1
  MaxN = 1
  MinLen = 1
  MaxLen = 1
  Profile = "tiny"
  MaxPyth = 0
  MaxH = 1
  OutFile = "/dev/null"
INVARIANT Unitary
C
cd "$d" && /usr/local/bin/tlc -metadir "$d/meta" -noGenerateSpecTE -config MC.cfg GateProg.tla > "$d/out" 2>&1 || { cat "$d/out"; exit 1; }
echo "setup ok"
