#!/bin/bash
# developer tool: which checks report which planted bug (against scratch copies)
cd /verif
rm -rf /tmp/trywork; mkdir -p /tmp/trywork
for d in ${@:-$(ls seeded)}; do
  (mkdir /tmp/trywork/$d; cp -a /repo/openscm /tmp/trywork/$d/; cd /tmp/trywork/$d; git init -q . ; git apply /verif/seeded/$d/patch.diff || echo "$d: DOES NOT APPLY"
  cd /verif; own=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])"); hits=""
  for p in $(python3 -c "from sa import registry;print(*registry.PROPERTIES)"); do out=$(python3 -m sa $p --no-evidence --repo /tmp/trywork/$d); r=$?
   if [ $r = 1 ]; then hits="$hits $p"; elif [ $r != 0 ]; then hits="$hits $p!!$r"; fi; done
  case " $hits " in *" $own "*) m=caught;; *) m=MISSED;; esac; echo "$d: $m own=$own hits:$hits" | tee /tmp/trywork/$d.res) &
  while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.05; done
done; wait
python3 tools/caught.py /tmp/trywork; rm -rf /tmp/trywork
