#!/bin/bash
# tryseed.sh ID...: demo on the clean tree and on a scratch copy with the patch; the repository's tests on the patched copy (TESTS=1)
for id in "$@"; do
  s=/verif/seeded/$id; c=/tmp/seed_$id
  rm -rf "$c"; mkdir -p "$c"; (cd /repo && tar cf - --exclude=_build --exclude=.git .) | tar xf - -C "$c"
  (cd /repo && bash $s/demo.sh >/tmp/d0 2>&1); a=$?
  (cd "$c" && patch -p1 -s < $s/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd "$c" && bash $s/demo.sh >/tmp/d1 2>&1); b=$?
  t=-
  if [ -n "$TESTS" ]; then
    mkdir -p /tmp/vps; for f in common.sh build.sh test.sh; do sed "s#/opt/vp/common.sh#/tmp/vps/$id.common.sh#; s#R=/repo#R=$c#" /opt/vp/$f > /tmp/vps/$id.$f; done
    sed -i "s#/opt/vp/results.py#/opt/vp/results.py#" /tmp/vps/$id.test.sh
    bash /tmp/vps/$id.test.sh /tmp/vps/$id.json > /tmp/vps/$id.log 2>&1
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/vps/$id.json')).get('passed',[]))
print('missing', len(b-o), sorted(b-o)[:3])")
  fi
  echo "$id: clean=$a patched=$b tests=$t"
  rm -rf "$c"
done
