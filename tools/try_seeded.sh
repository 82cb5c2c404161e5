#!/bin/bash
# tools/try_seeded.sh [ID...]: applies each planted change to /repo, runs the
# check of its property (PROPS: other properties), and takes it back.
cd "$(dirname "$0")/.." || exit 2
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
	for p in ${PROPS:-$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
		git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
		s=$SECONDS
		out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/check $p ${TIER:-quick} 2>&1)
		rc=$?
		echo "$id $p rc=$rc $((SECONDS - s))s $(grep -c ^VIOLATION <<<"$out") $(grep -m1 ^VIOLATION <<<"$out" | cut -c1-150)"
		git -C /repo checkout -q -- .
	done
done
