# seedrun.sh [ids]: for each seed, demo on clean and patched copy, and check of its property (and compile)
rsync -a --delete --exclude .git --exclude _build /repo/ /tmp/sd/ 2>/dev/null || { mkdir -p /tmp/sd; cp -a /repo/src /repo/devtools /tmp/sd/ ; }
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
. /opt/vp/env.sh
for id in $ids; do
 d=/verif/seeded/$id
 cd /tmp/sd; bash $d/demo.sh >/tmp/seed_clean.log 2>&1; a=$?
 git apply --unsafe-paths --directory=/tmp/sd $d/patch.diff 2>/dev/null || patch -s -p1 -d /tmp/sd < $d/patch.diff || echo PATCHFAIL
 (cd src && go build ./... 2>&1 | grep -v Tests | head -3)
 cd /tmp/sd; bash $d/demo.sh >/tmp/seed_bug.log 2>&1; b=$?
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 GOELAND_REPO=/tmp/sd /tmp/chk -property $p -root /tmp/ev > /tmp/seed_chk.log 2>&1; c=$?
 patch -s -R -p1 -d /tmp/sd < $d/patch.diff
 echo "$id $p demo clean=$a bug=$b check=$c $(grep -v VIOL /tmp/seed_chk.log | head -1 | cut -c1-120)"
 [ $a != 0 ] && tail -20 /tmp/seed_clean.log
 [ $b = 0 ] && tail -5 /tmp/seed_bug.log
done
