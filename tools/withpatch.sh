#!/bin/bash
# usage: withpatch.sh PATCH CMD...   runs CMD with /repo replaced (in a mount
# namespace of its own) by a copy that has PATCH applied; /repo is not touched.
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/withpatch.XXXXXX)
cp -a /repo "$d/repo" && git -C "$d/repo" apply "$p" || { rm -rf "$d"; exit 99; }
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && shift 0 && exec "$@"' "$d" "$@"
rc=$?
rm -rf "$d"
exit $rc
