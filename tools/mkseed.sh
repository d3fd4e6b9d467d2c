#!/bin/bash
# mkseed.sh ID PROP  (stdin: meta needs \n what); takes the diff of /repo's working tree
ID=$1; P=$2; D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff; git -C /repo checkout -q -- .
cat > $D/demo.sh <<'X'
#!/bin/bash
# cwd: the repository, built.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++17 -w -DFMT_HEADER_ONLY -I$R/lib -I$R/src -I$R/_build/lib -I$R/_build/lib/marc -I$R/lib/marc -I$R/opt/fmt-8.0.1/include $D/demo.cpp \
  $EXTRA -o $T/demo -L$R/_build/lib/marc/.libs -lMaRC -Wl,-rpath,$R/_build/lib/marc/.libs || exit 3
cd $T && timeout 60 ./demo
X
python3 - $ID $P "$3" "$4" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
X
