#!/bin/bash
# builds the AST extractor and warms the harness compilation cache; offline
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3-vt -c 'import sys; sys.path.insert(0, "engine"); import prog; prog.ensure_radext()'
ls -l build/radext
# compile every harness once so that checks reuse the object cache (checks still rebuild from /repo's sources)
python3-vt engine/warm.py || true
