#!/bin/bash
# run the check of each planted bug (all, or the named ones) against a scratch copy with it and say what it reports
main() {
cd $(dirname $(readlink -f $0))/..
for d in ${@:-seeded/*}; do d=seeded/$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 s=$(mktemp -d /tmp/seedrun-XXXX); cp -a /repo/. $s
 if git -C $s apply $PWD/$d/patch.diff; then
 t0=$SECONDS
 out=$(VERIF_REPO=$s timeout 900 python3-vt check.py $p 2>&1); rc=$?
 echo "$(basename $d) $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep VIOLATION | head -1)"
 else echo "$d NO-APPLY"; fi
 rm -rf "$s"
done
}
main "$@"; exit
