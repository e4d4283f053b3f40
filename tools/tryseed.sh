#!/bin/bash
# tryseed.sh ID [PROP]: run the check on a patched scratch copy (VERIF_REPO)
set -e
d=$(mktemp -d /tmp/try.XXXXXX); git clone -q /repo $d/repo; git -C $d/repo apply /verif/seeded/$1/patch.diff
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")}
cd /verif; VERIF_REPO=$d/repo VERIF_EVID=$d python3-vt check.py $p | tail -8; rm -rf $d
