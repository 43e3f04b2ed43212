#!/bin/bash
# bash /verif/run.sh <property> : builds the checker and decides one property from /repo's current source.
cd "$(dirname "$0")" || exit 1
. ./env.sh
export VERIF_DIR="$PWD" VERIF_REPO="${VERIF_REPO:-/repo}"
bin=$(mktemp -d /tmp/verifcheck.XXXXXX)
trap 'rm -rf "$bin"' EXIT
if ! (cd checker && GOFLAGS=-mod=mod go build -o "$bin/verifcheck" . >&2); then
  echo "checker does not build"; exit 2
fi
GOFLAGS=-mod=readonly "$bin/verifcheck" "$@"
code=$?
exit $code
