#!/bin/bash
# demotest.sh ID... : quick look at the demonstrations alone, in scratch copies without a build.
for id in "$@"; do S=/verif/seeded/$id; D=/tmp/seed/dt; rm -rf /tmp/seed/dt; mkdir -p $D/a $D/b $D/demo
  git -C /repo archive HEAD | tar -x -C $D/a; git -C /repo archive HEAD | tar -x -C $D/b; (cd $D/b && patch -p1 -s -i $S/patch.diff) || { echo "$id NOAPPLY"; continue; }
  find $S -type f ! -name "*.diff" ! -name meta.json -exec cp {} $D/demo/ \;; (cd $D/a && timeout 300 bash $D/demo/demo.sh > $D/oa 2>&1); a=$?; (cd $D/b && timeout 300 bash $D/demo/demo.sh > $D/ob 2>&1); b=$?
  echo "$id base=$a patched=$b $(grep -m1 error $D/oa | cut -c1-150) / $(tail -1 $D/ob | cut -c1-120)"
done
