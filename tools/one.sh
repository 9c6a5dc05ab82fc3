#!/bin/bash
# developer tool: one.sh SEED PROP...: verbose result against a planted bug
d=$1; shift; rm -rf /tmp/onework; mkdir -p /tmp/onework; cp -a /repo/openscm /tmp/onework; cd /tmp/onework; git init -q .; git apply /verif/seeded/$d/patch.diff; cd /verif
for p in $@; do python3 -m sa $p --no-evidence --repo /tmp/onework -v | cut -c1-1200; done
