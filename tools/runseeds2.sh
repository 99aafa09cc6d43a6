#!/bin/bash
# runseeds2.sh DIR SEED...: like runseeds.sh, in a scratch copy DIR of /repo and /verif, so that /repo stays as it is.
D=$1; shift
rm -rf "$D"; mkdir -p "$D"; cp -a /repo "$D/repo"; mkdir "$D/verif"
cp -a /verif/{engine,harness,checks,check.py,known_findings.txt,MANIFEST.json,properties.jsonl} "$D/verif/"
for f in "$D"/verif/harness/*/Cargo.toml; do sed -i "s#\"/repo\"#\"$D/repo\"#; s#path = \"/repo#path = \"$D/repo#" "$f"; done
sed -i "s#\"/repo\"#\"$D/repo\"#g" "$D/verif/check.py"
cd "$D/verif"
for s in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")}
  git -C "$D/repo" apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  timeout 1500 python3 check.py $p ${TIER:-quick} > "$D/log" 2>&1; rc=$?
  git -C "$D/repo" checkout -q -- .
  echo "$s $p exit $rc $(grep -m1 -B1 VIOLATION "$D/log" | head -1 | cut -c1-200)"
done
rm -rf "$D"
