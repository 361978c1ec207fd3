#!/bin/bash
# wkseed.sh ID [nocheck|nodemo]: as tryseed.sh, for changes of the engine (which the stable tests do not build), in a clone of its own
. /tmp/wk/env
id=$1; d=$PWD/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
C=/tmp/wk/seedrepo
[ -d $C ] || git clone -q /tmp/wk/repo $C
git -C $C checkout -q -- . ; git -C $C pull -q
mkdir -p /tmp/wk/demo; D=/tmp/wk/demo/$id; mkdir -p $D; cp -r $d/. $D; rm -f $D/*.diff $D/meta.json
cd $C
[ "$2" = nodemo ] || { bash $D/demo.sh >/tmp/wk/demo/$id.0.log 2>&1; echo "$id demo clean: $?"; }
git apply $d/patch.diff || exit 2
[ "$2" = nodemo ] || { bash $D/demo.sh >/tmp/wk/demo/$id.1.log 2>&1; echo "$id demo patched: $?"; }
cd /tmp/wk/verif; export VERIF_REPO=$C
if [ "$2" != nocheck ]; then for p in $prop $(python3 -c "import json;print(*json.load(open('$d/meta.json')).get('also',[]))"); do VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3-vt checks/$p.py >/tmp/wk/demo/$id.$p.log 2>&1; echo "$id check $p: rc=$? $(grep -c ^VIOLATION /tmp/wk/demo/$id.$p.log) violations"; done; fi
git -C $C checkout -q -- .
rm -rf "$D"
