#!/bin/bash
# bash check.sh ID [case]: builds the harness against /repo's working tree and runs the check of one property.
dir=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VERIF_DIR=$dir REPO_DIR=${REPO_DIR:-/repo}
id=$1
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
case $id in T02|J04|J05) race=-race ;; esac
(cd "$dir/harness" && go build $race -o "$tmp/vh" ./cmd/vh) >"$tmp/build.log" 2>&1 || { echo "BUILD FAILED"; head -50 "$tmp/build.log"; exit 2; }
export VH_TMP=$tmp/run
mkdir -p "$VH_TMP"
"$tmp/vh" "$@"
