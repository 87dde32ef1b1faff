#!/bin/sh
# Builds /repo in the variants the checks use and all explorers (the checks rebuild what changed).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from mc import core
core.pmap(core.build_repo, ["plain", "asan", "tsan"])
P
