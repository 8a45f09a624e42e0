#!/bin/bash
# run every h_sig entry once: tools/runall.sh <regex>
cd /verif; for e in $(grep -o 'E(c[0-9][0-9]_[A-Za-z0-9]*' h/${H:-h_sig}.c | sed 's/E(//' | grep -E "${1:-.}"); do p=C${e:1:2}; echo "== $e"; timeout 900 ./vp.py run ${H:-h_sig} $e --prop $p $2 $3 2>&1 | grep -vE "^(ends|covers|$)" | sed -E "s/'sat.*'completed': ([0-9]+),.*'asserts': ([0-9]+), 'assertsSolver': ([0-9]+).*/completed \1 asserts \2 \3/" | cut -c1-420; done
