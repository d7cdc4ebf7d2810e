#!/bin/bash
# mkseed.sh <id> <property>: makes seeded/<id> from the scratch copy /tmp/mut (its diff against /repo HEAD) ; needs/breaks from stdin lines 1,2
V=/verif; id=$1; d=$V/seeded/$id
mkdir -p $d/stubs; cp $V/harness/stubs/* $d/stubs/; cp $V/tools/demo_common.hpp $d/stubs/; cp $V/tools/demo_template.sh $d/demo.sh
read -r needs; read -r breaks
python3 - "$d" "$2" "$needs" "$breaks" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
open(d+'/meta.json','w').write(json.dumps({"property":p,"needs":n,"what_it_breaks":b},indent=1)+'\n')
P
git -C /tmp/mut diff > $d/patch.diff
git -C /tmp/mut checkout -q -- .
