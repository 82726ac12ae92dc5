#!/bin/bash
# Builds the Go half and the library it loads, from /repo's working tree. Expects env.sh sourced.
set -e
here=$(cd "$(dirname "$0")/../.." && pwd)
(cd "$here/sut/ec_go_lib" && cargo build --offline --locked)
cd "$here/h/go/gosrc"
export GOWORK=off GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOCACHE="$here/target/gocache" GOPATH="$here/target/gopath"
go build -o "$here/target/h_go_server" .
