#!/bin/bash
# runs the check of each planted bug's property against a scratch copy with the bug: tryseeds.sh [id ...]
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V/seeded" || exit 1
one() {
  id=$1; w=$(mktemp -d /tmp/try.XXXXXX); cp -a /repo "$w/repo"; mkdir "$w/v"; cp -a "$V/contracts" "$V/replay" "$V/known_findings.json" "$w/v/"
  git -C "$w/repo" apply "$V/seeded/$id/patch.diff" || echo "$id PATCH FAILS"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  o=$("$V/bin/gvc" -prop "$p" -tier quick -repo "$w/repo" -verif "$w/v" -contracts "$w/v/contracts" 2>&1)
  echo "$id rc=$? $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep '^VIOLATION' | sed 's/replay=[^ ]*//') :: $(echo "$o" | grep -oE '[A-Za-z.]+/[a-z]+:[a-z-]+' | sort -u | head -4 | tr '\n' ' ')"
  rm -rf "$w"
}
export -f one; export V
if [ $# -gt 0 ]; then ids="$*"; else ids=$(ls); fi
printf '%s\n' $ids | xargs -P 4 -I{} bash -c 'one {}'
