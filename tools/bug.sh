#!/bin/bash
# bug.sh ID [check ...]: applies seeded/ID/patch.diff to a private copy of /repo (bind-mounted over /repo in a private
# mount namespace, so nothing outside changes), runs the demo on both trees, the stable tests (NOTESTS=1 skips) and the checks.
id="$1"; shift
W=$(mktemp -d /tmp/bug-XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/verif"; (cd /verif && tar c --exclude=.git --exclude=out --exclude=evidence .) | tar x -C "$W/verif"
git -C "$W/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
cp -a "/verif/seeded/$id" "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
if [ -z "$NODEMO" ]; then
(cd /repo && timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1); a=$?
fi
unshare -m bash -c '
mount --bind '$W'/repo /repo; mount --bind '$W'/verif /verif
cd /repo
if [ -z "$NODEMO" ]; then timeout 300 bash '$W'/demo/demo.sh > '$W'/d1 2>&1; b=$?
echo "'$id': demo unchanged='$a' patched=$b"; tail -1 '$W'/d1; fi
if [ -z "$NOTESTS" ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAILS; bash /opt/vp/test.sh '$W'/t.json >/dev/null 2>&1
python3 - <<P
import json
t=json.load(open("'$W'/t.json")); s=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ok=set(t.get("passed",[])) if isinstance(t.get("passed"),list) else set(k for k,v in t.items() if v in ("pass","passed"))
print("'$id': failing stable tests:", sorted(s-ok))
P
fi
cd /verif
for c in '"$*"'; do timeout 900 ./run.sh $c quick > '$W'/o 2>&1; r=$?; echo "'$id': $c rc=$r $(grep -m1 -A0 "violated clause\|  [A-Z]" '$W'/o | cut -c1-220)"; done
'
[ -n "$KEEP" ] || rm -rf "$W"
