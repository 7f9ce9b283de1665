#!/bin/bash
# seedconfirm.sh ID...: in a scratch place that looks like /repo to the demo (bind mount in a user namespace),
# demo passes on the unchanged tree, fails with the patch, and the stable tests pass with the patch.
for id in "$@"; do
  d=/verif/seeded/$id
  s=/tmp/seedconf.$$
  rm -rf $s; cp -a /repo $s; mkdir -p $s.demo; cp -a $d/. $s.demo/; rm -f $s.demo/*.diff $s.demo/meta.json
  unshare -Urm bash -c "
    mount --bind $s /repo && cd /repo || exit 9
    timeout 300 bash $s.demo/demo.sh >/tmp/demo.o 2>&1; a=\$?
    git apply $d/patch.diff || exit 8
    bash /opt/vp/build.sh >/tmp/b.o 2>&1 || { tail -20 /tmp/b.o; exit 7; }
    t0=\$(date +%s); timeout 300 bash $s.demo/demo.sh >/tmp/demo.p 2>&1; b=\$?; t1=\$(date +%s)
    bash /opt/vp/test.sh /tmp/t.json >/tmp/t.o 2>&1
    python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/t.json'))['passed'])
print('   tests missing:', sorted(b-p)[:5])
P
    echo \"$id: demo clean=\$a patched=\$b (\$((t1-t0))s)\"; head -c 300 /tmp/demo.p"
  rm -rf $s $s.demo
done
