#!/bin/bash
# trybug.sh ID,ID.. [quick|thorough] [PROPERTY]: run the check of the bug's property against a
# scratch copy of /repo with the planted bug applied
cd "$(dirname "$0")/.."
one() {
  id=$1; tier=$2; p=$3
  [ -n "$p" ] || p=$(python3 -c "import json;print(json.load(open('$D/$id/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo $t/repo; mkdir $t/v $t/v/evidence
  for x in harness known_findings.json bin; do ln -s "$PWD/$x" $t/v/$x; done
  if git -C $t/repo apply "$D/$id/patch.diff"; then
    s=$(date +%s); out=$(VERIF_DIR=$t/v ./bin/gosym -repo $t/repo -prop $p -tier $tier 2>&1); rc=$?; e=$(date +%s)
    echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -E 'VIOLATION|INCONCL' | head -2 | cut -c1-200)"
  else echo "$id does not apply"; fi
  rm -rf "$t"
}
export D=${PLANT_DIR:-$PWD/seeded}; export -f one
ids=$1; [ "$ids" = all ] && ids=$(ls $D | paste -sd,)
echo ${ids//,/ } | tr ' ' '\n' | xargs -P 4 -I{} bash -c "one {} ${2:-quick} $3"
