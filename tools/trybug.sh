#!/bin/bash
# trybug.sh ID [PROP...]: run the checks of the seeded change against a scratch copy
id=$1; shift; d=$(mktemp -d /tmp/bug.XXXX); cp -a /repo/. $d/; (cd $d && git apply /verif/seeded/$id/patch.diff) || exit 9
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
for p in $P; do RAYVC_REPO=$d /verif/check.py $p | cut -c1-300 | tail -${TAIL:-6}; done; rm -rf "$d"
