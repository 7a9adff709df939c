#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Decides one property of the exchange: rebuilds the contract from /repo's working tree, records histories of
the compiled program, and lets TLC check them against the TLA+ specification in /verif/spec.
Exit 0: held on everything explored.  1: VIOLATION printed.  2: the check itself failed."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    r = lib.Run(prop, tier, seed)
    try:
        lib.run_property(r)
    except lib.ToolError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    r.write_evidence()
    for k in r.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if r.violations:
        for v in r.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("  " + v["what"])
        sys.exit(1)
    print("OK property=%s tier=%s states=%d traces=%d wall=%.0fs" % (prop, tier, r.states, r.traces, time.time() - r.t0))

main()
