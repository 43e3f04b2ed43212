#!/bin/bash
# Warms the build cache for the checker; every check builds it again from the committed files.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd checker && GOFLAGS=-mod=mod go build -o /dev/null .
