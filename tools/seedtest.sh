#!/bin/bash
# seedtest.sh ID... : confirms a planted change (builds, passes the stable tests, demo 0 without / nonzero with it) in scratch copies.
B=/tmp/seed
mkcopy() { # dir
  rm -rf "$1"; mkdir -p "$1/opt" "$1/repo"
  git -C /repo archive HEAD | tar -x -C "$1/repo"
  for f in common build test; do sed "s#/repo#$1/repo#g; s#/opt/vp/common.sh#$1/opt/common.sh#g" /opt/vp/$f.sh > "$1/opt/$f.sh"; done
}
if [ ! -d $B/base/repo/_build ] || [ "$(git -C /repo rev-parse HEAD)" != "$(cat $B/base/head 2>/dev/null)" ]; then
  mkcopy $B/base; bash $B/base/opt/build.sh > $B/base/log 2>&1 || exit 9; git -C /repo rev-parse HEAD > $B/base/head
fi
for id in "$@"; do
  S=/verif/seeded/$id; D=$B/$id; res=""
  mkcopy $D
  if ! (cd $D/repo && git init -q . 2>/dev/null && git apply --whitespace=nowarn $S/patch.diff); then echo "$id NOAPPLY"; continue; fi
  rm -rf $D/repo/.git
  rm -rf $D/demo; mkdir -p $D/demo; cp $S/* $D/demo/; rm -f $D/demo/*.diff $D/demo/meta.json
  (cd $B/base/repo && timeout 300 bash $D/demo/demo.sh > $D/demo.base 2>&1); b=$?
  if [ -z "$NOTEST" ]; then
    bash $D/opt/test.sh $D/t.json > $D/test.log 2>&1
    res=$(python3 - $D/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=b['stable']
st=set(st if isinstance(st,list) else [])
miss=[x for x in st if x not in set(t['passed'])]
print('tests=%d/%d%s'%(len(st)-len(miss),len(st),' MISS '+','.join(miss[:4]) if miss else ''))
P
)
  else bash $D/opt/build.sh > $D/test.log 2>&1; fi
  (cd $D/repo && timeout 300 bash $D/demo/demo.sh > $D/demo.patched 2>&1); p=$?
  echo "$id $res demo base=$b patched=$p ($(tail -1 $D/demo.patched | cut -c1-150))"
  rm -rf $D/repo/_build $D/repo/_build_constexpr
done
