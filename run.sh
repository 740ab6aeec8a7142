#!/bin/bash
# Builds the checker from this folder and decides one property for /repo.
# usage: run.sh PROPERTY [extra checker flags]
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
export HOME=${HOME:-/root} GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPROXY=off GOTOOLCHAIN=local GOENV=off CGO_ENABLED=1
GO=/opt/veriftools/go1.26.10/bin/go
bin=$here/.bin/chk
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/checker" && GOFLAGS=-mod=vendor GOWORK=off "$GO" build -o "$bin" .) >"$here/.bin/build.log" 2>&1; then
	cat "$here/.bin/build.log"
	exit 2
fi
GOMEMLIMIT=12GiB exec "$bin" -prop "$id" -repo "${VERIF_REPO:-/repo}" -evidence "$here/evidence" -known "$here/known_findings.json" "$@"
