#!/bin/bash
# plant.sh ID [check-tier]: takes the edits in /var/tmp/scratch (a copy of /repo) as a
# planted bug: writes seeded/ID/patch.diff, builds and tests it (shown at /repo in a
# mount namespace), runs its demo on both trees and the property's check.
set -u
ID=$1; TIER=${2:-quick}; D=/verif/seeded/$ID; S=/var/tmp/scratch
git -C $S diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no edit"; exit 1; }
[ -f $D/demo.sh ] || printf '. /opt/vp/env.sh\nexport PYTHONPATH=$PWD\nexec python "$(dirname "$0")/demo.py"\n' > $D/demo.sh
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
export CCACHE_READONLY=1
cd /repo && bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "demo on base: $?"
unshare -Urm sh -c 'mount --bind /var/tmp/scratch /repo && cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
cd /repo; bash "$0"/demo.sh >/tmp/demo1.log 2>&1; echo "demo with patch: $?"' $D
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(o):
    if isinstance(o,dict):
        for k in ('passed','pass','stable','tests'):
            if k in o: return set(o[k])
    return set(o)
m=names(b)-names(t); print("stable tests lost:",len(m),sorted(m)[:5])
P
tail -2 /tmp/demo1.log
cd /verif && MC_REPO=$S bash run.sh $PROP $TIER 2>&1 | tail -4
git -C $S checkout -q -- .
