#!/bin/bash
# Builds everything the checks use; each check rebuilds what depends on /repo again.
cd "$(dirname "$0")" && exec python3 - <<'P'
import sys
sys.path.insert(0, ".")
import lib
lib.build_java()
lib.build_host()
lib.build_wasm()
if hasattr(lib, "build_native"):
    lib.build_native()
# the scenarios of the quick tier: the specification's properties, and the operations to perform on the contract
import props
r = lib.Run("setup", "quick", 1)
for s in sorted(set(" ".join(props.SCENES.values()).split())):
    lib.tree(r, s, props.DEPTH[s][0])
    print("scenario", s, r.states, flush=True)
print("ready")
P
