mk () 
{ 
    mkdir -p /verif/seeded/$1;
    cp kit.py ../checks/meshgen.py ../checks/formats.py /verif/seeded/$1/;
    ( cd /tmp/wr && git diff > /verif/seeded/$1/patch.diff && git checkout -q -- . );
    printf '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' > /verif/seeded/$1/demo.sh;
    python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P

}
