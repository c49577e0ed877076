#!/bin/bash
# Check that the fact extractor can be built here; nothing is kept.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys, tempfile, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, "engine")
import facts
w = tempfile.mkdtemp(prefix="nvcx-setup-")
try:
    facts.build_extractor(w)
finally:
    shutil.rmtree(w, ignore_errors=True)
print("extractor builds")
PY
