#!/bin/bash
# run.sh SET...: compare each edit set, short output
cd "$(dirname "$0")"
for f in "$@"; do echo "== $f"; W=${W:-300} python3 edits.py $f 2>&1 | cut -c1-${W:-300}; done
