#!/bin/bash
# usage: run.sh PROP SEED SECONDS OUT.json  -- builds the harness from /repo's working tree and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/../env.sh"
prop=$1 seed=$2 secs=$3 out=$4
case $prop in
  C20|C21|C22|C23) mod=/repo/cmd/xtemplate; src=$here/xt ;;
  *) mod=/repo; src=$here/core ;;
esac
race=
[ "$prop" = C12 ] && race=-race
work=$(mktemp -d "${TMPDIR:-/tmp}/verif-harness.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/scratch"
{
  echo '{"Replace": {'
  sep=
  for f in "$src"/*.go; do
    echo "$sep\"$mod/zz_verif/$(basename "$f")\": \"$f\""
    sep=,
  done
  echo '}}'
} > "$work/overlay.json"
cd "$mod" || exit 3
go build $race -overlay "$work/overlay.json" -o "$work/h" ./zz_verif > "$work/build.log" 2>&1 || { cat "$work/build.log"; exit 4; }
export VERIF_SCRATCH=$work/scratch
cd "$work/scratch"
limit=$(( ${secs%.*} + 120 ))
GORACE="halt_on_error=1 exitcode=66" timeout -k 5 $limit "$work/h" "$prop" "$seed" "$secs" "$out" > "$work/log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -c 20000 "$work/log"; fi
exit $rc
