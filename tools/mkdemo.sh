#!/bin/bash
# mkdemo.sh ID PROP pkg "needs" "breaks" < go test file
d=/verif/seeded/$1; mkdir -p $d; cat > $d/zz_demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# Runs the demonstration test inside the package it concerns, through an overlay.
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
tmp=\$(mktemp -d) && trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace": {"%s/$3/zz_demo_test.go": "%s/zz_demo_test.go"}}' "\$PWD" "\$here" > "\$tmp/overlay.json"
TMPDIR="\$tmp" timeout 280 go test -overlay "\$tmp/overlay.json" -vet=off -count=1 -run 'TestZZDemo' ./$3
X
python3 - "$@" <<'P'
import json,sys
i,p,_,n,b=sys.argv[1:6]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
