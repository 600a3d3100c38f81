#!/bin/bash
# Builds the harness binaries and /repo's programs once; every check rebuilds what changed since.
cd "$(dirname "$0")" && exec python3-vt -c '
import sys; sys.path.insert(0, "lib")
import vlib, os
for crate, bins in (("eager", vlib.EAGER),):
    if os.path.exists(os.path.join(vlib.VERIF, "harness", crate, "Cargo.toml")):
        vlib.build_harness(crate, bins)
vlib.build_repo_bins(["amzn-smt-string-transformer", "amzn-smt-string-fct-updater", "amzn-smt-prediction"])
print("ok")'
