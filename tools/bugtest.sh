#!/bin/bash
# bugtest.sh [ID...]: run the check of each planted bug's property on a scratch copy carrying the patch.
cd /verif/seeded; IDS=${@:-$(ls)}
one() { id=$1; W=/tmp/bt.$id.$$; mkdir -p $W; cp -a /repo/. $W/; (cd $W && git apply /verif/seeded/$id/patch.diff) || echo "$id NOAPPLY"
 P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 mkdir -p $W/v; cp -a /verif/check.py /verif/checks /verif/sa /verif/KNOWN_FINDINGS.txt $W/v/ 2>/dev/null
 o=$(cd $W/v && SA_ROOT=$W timeout 900 python3 check.py $P 2>&1); rc=$?
 echo "$id $P rc=$rc $(echo "$o" | head -1 | cut -c1-120)"; rm -rf "$W"; }
export -f one
printf '%s\n' $IDS | xargs -P 6 -I{} bash -c 'one {}'
