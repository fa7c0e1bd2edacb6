#!/bin/bash
# catch.sh ID [tier-env]: applies seeded ID to a scratch clone, runs the property's quick check on it
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
wt=/tmp/sbc_$id; rm -rf $wt; git clone -q /repo $wt && git -C $wt apply /verif/seeded/$id/patch.diff || exit 9
rm -rf /tmp/vc_$id; mkdir /tmp/vc_$id; cp -a /verif/harness /verif/instr /verif/run.sh /verif/known-findings.json /verif/tools /verif/properties.jsonl /tmp/vc_$id/
s=$(date +%s)
REPO=$wt /tmp/vc_$id/run.sh $prop quick > /tmp/o/catch_$id.log 2>&1; rc=$?
echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -B1 VIOLATION /tmp/o/catch_$id.log | head -1 | cut -c1-200)"
mkdir -p /tmp/o/rep; cp /tmp/vc_$id/replays/* /tmp/o/rep/ 2>/dev/null
rm -rf $wt /tmp/vc_$id
