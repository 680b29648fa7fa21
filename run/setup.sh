#!/bin/bash
# Builds what the checks run, from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, ".")
from common import *
import os
build_gfm_probe()
build_smd()
if os.path.isdir(os.path.join(VERIF, "harness", "core-probe")):
    build_core_probe()
P
