#!/bin/bash
# builds the verifier and warms the build cache; offline
set -e
root=$(cd "$(dirname "$0")" && pwd)
. "$root/env.sh"
mkdir -p "$root/bin"
(cd "$root/govc" && GOWORK=off GOFLAGS=-mod=mod go build -o "$root/bin/govc.tmp.$$" . && mv "$root/bin/govc.tmp.$$" "$root/bin/govc")
