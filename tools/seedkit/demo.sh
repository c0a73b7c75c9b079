#!/bin/bash
# exit 0: behaves as it should; nonzero: it does not. Builds the library from /repo (cwd) in a scratch directory.
D="$(cd "$(dirname "$0")" && pwd)"
exec python3-vt "$D/demo.py"
