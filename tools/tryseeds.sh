#!/bin/bash
# runs the checks of the planted bugs against them: tryseeds.sh [id...]  (scratch copy of /repo, HX_REPO)
here=$(cd "$(dirname "$0")/.." && pwd)
S=${HX_TRY:-/tmp/w/try}
mkdir -p "$S"
cd "$here/seeded" || exit 1
for s in ${@:-*}; do
  rsync -a --delete --exclude _build --exclude .git /repo/ "$S/"
  (cd "$S" && git apply --whitespace=nowarn "$here/seeded/$s/patch.diff" 2>/dev/null || patch -sp1 < "$here/seeded/$s/patch.diff")
  p=$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$s/meta.json")
  HX_REPO=$S "$here/check" "$p" quick > /tmp/w/try.out 2>&1
  echo "$s $p rc=$? $(grep -m1 '\]:' /tmp/w/try.out | cut -c1-180)"
done
