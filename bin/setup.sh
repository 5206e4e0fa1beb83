#!/bin/bash
# Warms the build of the harness; every check rebuilds it from /repo anyway.
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'bin'); import vlib; print(vlib.build_harness(), vlib.build_harness('driver_exe'))"
