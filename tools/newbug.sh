#!/bin/bash
# newbug.sh ID PROPERTY NP "needs" "what_it_breaks": makes seeded/ID from the uncommitted change in /repo (which is
# undone) and the test in /tmp/t.py, which may import ngsv (the harness library, copied beside it)
S=/verif/seeded/$1; mkdir -p $S
git -C /repo diff > $S/patch.diff; [ -s $S/patch.diff ] || { echo no change; exit 1; }
git -C /repo checkout -q -- .
cp /verif/tools/demo/ext.sh $S/; cp /tmp/t.py $S/t.py
if grep -q "import ngsv" $S/t.py; then cp /verif/harness/*.cpp /verif/harness/ngsv.hpp $S/; fi
if grep -q "ngsv_mesh" $S/t.py; then mkdir -p $S/mesh; cp /verif/harness/mesh/mesh.cpp $S/mesh/; fi
printf '. "$(dirname "$0")/ext.sh"\nrun %s t.py\n' "$3" > $S/demo.sh
python3 -c "import json,sys; json.dump({'property': sys.argv[1], 'needs': sys.argv[2], 'what_it_breaks': sys.argv[3]}, open('$S/meta.json','w'))" "$2" "$4" "$5"
