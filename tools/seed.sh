#!/bin/bash
# seed.sh ID [-q]: confirm a planted bug in a scratch copy (demo passes without, fails with the patch; stable tests pass)
# and report what the check of its property says; -a runs every check
id=$1; D=/verif/seeded/$id
W=$(mktemp -d /tmp/seedXXXX); trap "rm -rf $W" EXIT
cp -a /repo $W/repo; cd $W/repo
git apply --check $D/patch.diff || { echo "PATCH does not apply"; exit 1; }
(bash $D/demo.sh >$W/o1 2>&1); a=$?
git apply $D/patch.diff
(bash $D/demo.sh >$W/o2 2>&1); b=$?
echo "$id demo: clean=$a patched=$b"
[ $a = 0 ] || tail -5 $W/o1
tail -2 $W/o2
if [ "$2" != "-q" ]; then
  (MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 timeout 300 /opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider 2>&1 | tail -1)
fi
cd /verif
props=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ "$2" = "-a" -o "$3" = "-a" ] && props=$(python3 -c "
import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
for p in $props; do NFCHECK_REPO=$W/repo NFCHECK_EVIDENCE=$W/ev python3 -m nfcheck $p | grep -v -e UNDECIDED -e KNOWN | tail -3; done
