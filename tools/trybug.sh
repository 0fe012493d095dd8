#!/bin/bash
# trybug.sh <seeded dir>: confirms a planted bug in scratch copies: it applies, builds, passes the
# stable tests, and its demonstration tells the two trees apart.  (Maintainer's tool, not a check.)
set -e
D=$(readlink -f "$1"); id=$(basename "$D")
W=/tmp/trybug.$id.$$; mkdir -p $W
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo
demo=$W/demo; mkdir $demo; cp -a "$D"/. $demo; rm -f $demo/*.diff $demo/meta.json
# run as the final check does: /repo itself carries the change, so use a private mount of the copy
inrepo() { unshare -Urm bash -c "mount --bind $W/repo /repo && cd /repo && $1"; }
cd $W/repo
inrepo "bash $demo/demo.sh" >$W/o1 2>&1 && echo "demo on unchanged tree: 0" || { echo "FAIL demo on unchanged tree"; cat $W/o1; exit 1; }
git apply "$D/patch.diff"
inrepo "cargo build --offline --workspace" >$W/o2 2>&1 || { echo "FAIL build"; tail -30 $W/o2; exit 1; }
inrepo "bash /opt/vp/build.sh && bash /opt/vp/test.sh $W/t.json" >$W/o3 2>&1 || true
python3 - $W/t.json <<'P' || exit 1
import json,sys
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open(sys.argv[1]))['passed'])
if a-b: print("FAIL stable tests broken:", a-b); sys.exit(1)
print("stable tests pass")
P
if inrepo "bash $demo/demo.sh" >$W/o4 2>&1; then echo "FAIL demo passes with the bug"; exit 1; else echo "demo with bug: nonzero: $(tail -1 $W/o4)"; fi
