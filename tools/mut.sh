#!/bin/bash
# mut.sh PATCH ID...   run checks against a planted change (applied to /repo and undone)
p=$(realpath "$1"); shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$p" || exit 2
for id in "$@"; do
	/verif/check.sh $id quick 2>&1 | cut -c1-300 | tail -4
	echo "$id exit ${PIPESTATUS[0]}"
done
