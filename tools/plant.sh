#!/bin/bash
# plant.sh <id> [<property> <needs> <breaks>]: takes the change made in the scratch copy $P/repo (made with
# 'plant.sh --copy') as planted bug <id>, whose demo.cpp is in /verif/seeded/<id>/, confirms it and undoes it.
P=${P:-/tmp/plant}
if [ "$1" = --copy ]; then mkdir -p $P; cp -a /repo $P/; exit; fi
d=/verif/seeded/$1
R=$P/repo
mk() { (cd $R && MAKEFILES=/opt/vp/deps.mk CPPFLAGS="-MMD -MP" make -j8 CXX=g++ AR=ar RANLIB=ranlib OPENSSL_DIR=/usr ${1:-librtmfp.a} >$P/build.log 2>&1) || { echo BUILD FAILED; tail $P/build.log; exit 1; }; }
mkdir -p $d
[ -n "$(git -C $R diff)" ] && git -C $R diff > $d/patch.diff
git -C $R checkout -q -- .
cp /verif/tools/demo/demo.sh /verif/tools/demo/pair.hpp $d/
[ -n "$2" ] && python3 - "$@" <<'PY'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
PY
cd $R
mk
bash $d/demo.sh || echo "DEMO FAILS UNPATCHED ($?)"
git apply $d/patch.diff || exit 1
mk all
bash $d/demo.sh; rc=$?
[ $rc = 0 ] && echo "DEMO PASSES PATCHED" || echo "demo fails patched: $rc"
if [ -z "$NOTEST" ]; then
  t=0; for x in $(sed -n '/^ci:/,/^[^\t]*$/s/^\t\.\/\([A-Za-z0-9_]*\)[ \t]*$/\1/p' test/Makefile); do
    (cd test; ulimit -c 0; sleep 0 | timeout 120 ./$x 2>&1 | cat >$P/t.log; [ "${PIPESTATUS[1]}" = 0 ]) || { echo "TEST $x FAILS"; t=1; }; done
  [ $t = 0 ] && echo "tests pass"
fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bin=$(awk -v p=$prop '$1==p{print $2}' /verif/checks/INDEX)
(cd /verif && make -s -j8 REPO=$R OUT=$P/out $P/out/$bin >$P/build.log 2>&1) || { echo CHECK BUILD FAILED; tail $P/build.log; }
(cd $P && mkdir -p v && VERIF_DIR=$P/v $P/out/$bin --prop $prop --tier quick --seed 1 --no-evidence 2>&1 | tail -${TAIL:-4})
git -C $R checkout -q -- .
