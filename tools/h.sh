#!/bin/bash
# h.sh GROUP HARNESS...: dev.py with short build errors
cd /verif; G=$1; shift
GRP=$G timeout ${T:-850} python3 dev.py "$@" > /tmp/h.$$ 2>&1
if grep -q "^error" /tmp/h.$$; then grep -A12 "^error" /tmp/h.$$ | grep -v "rustc --crate" | cut -c1-200 | head -${L:-60}; else cut -c1-${W:-900} /tmp/h.$$ | tail -${L:-60}; fi
