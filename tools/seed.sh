#!/bin/bash
# seed.sh <id> <property> : turn the working change in the scratch copy /tmp/rs and the demo in /tmp/w/demo.rs into a planted bug,
# after confirming that the stable tests pass with it and the demo fails with it and passes without it.
# NEEDS / BREAKS environment: texts of meta.json
set -u
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/rs diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in /tmp/rs"; exit 1; }
cp /tmp/w/demo.rs "$d/main.rs"
cp /verif/tools/demo.sh "$d/demo.sh"
chmod +x "$d/demo.sh"
python3 - "$d" "$prop" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
cd /repo && [ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 1; }
bash "$d/demo.sh"; clean=$?
git -C /repo apply "$d/patch.diff" || exit 1
bash /opt/vp/build.sh >/tmp/w/seedbuild.log 2>&1 && bash /opt/vp/test.sh /tmp/w/seedtest.json >/dev/null 2>&1
t=$(python3 -c "import json;o=json.load(open('/tmp/w/seedtest.json'));print(o['passed'] if isinstance(o['passed'],int) else len(o['passed']))")
cd /repo; bash "$d/demo.sh"; bad=$?
echo "seed $id: demo clean=$clean patched=$bad tests=$t"
if [ -n "${CHECK-yes}" ]; then cd /verif; grep -q "\"property\": \"$prop\", \"quick" MANIFEST.json; eval "$(python3 -c "
import json
print(next((c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'),'echo no check'))")" | tail -6 | cut -c1-250; fi
git -C /repo checkout -- .
[ $clean = 0 ] && [ $bad != 0 ] && [ "$t" = 303 ] && echo "OK $id" || echo "BAD $id"
