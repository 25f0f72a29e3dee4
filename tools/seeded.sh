#!/bin/bash
# seeded.sh [-j N] [BUG...]   run each planted bug's own check on a copy of both trees
# (bind-mounted over /repo and /verif in a private mount namespace)
export root=$(cd "$(dirname "$0")/.." && pwd)
j=3
[ "$1" = -j ] && { j=$2; shift 2; }
one() {
	b=$1
	id=$(python3 -c "import json;print(json.load(open('$root/seeded/$b/meta.json'))['property'])")
	w=$(mktemp -d /tmp/sb.XXXXXX)
	mkdir $w/verif
	cp -a /repo $w/repo
	(cd $root && tar c --exclude=./.git --exclude=./evidence --exclude=./seeded .) | tar x -C $w/verif
	git -C $w/repo checkout -q -- .
	git -C $w/repo apply $root/seeded/$b/patch.diff || { echo "NOAPPLY $b"; return; }
	s=$(date +%s)
	unshare -Urm bash -c "mount --bind $w/repo /repo; mount --bind $w/verif /verif; cd /verif; ./check.sh $id quick" >$w/out 2>&1
	rc=$?
	t=$(($(date +%s) - s))
	if [ $rc = 1 ] && grep -q "VIOLATION property=$id" $w/out; then
		echo "caught $b ($t s)" $(grep -m1 -o 'no-failing-input-found' $w/out)
	else
		echo "MISSED $b ($t s) rc=$rc $(tail -2 $w/out | tr '\n' ' ' | cut -c1-200)"
	fi
	rm -rf "$w"
}
export -f one
printf '%s\n' ${@:-$(ls $root/seeded)} | xargs -P $j -I{} bash -c 'one {}'
