#!/bin/bash
# Run the demonstration beside this script against the library in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd protocol || exit 3
cp go.mod go.sum "$T/" || exit 3
printf '{"Replace":{"%s":"%s","%s":"%s"}}' \
  "$PWD/seeded/helper_test.go" "$D/helper_test.go" "$PWD/seeded/demo_test.go" "$D/demo_test.go" > "$T/o.json"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
go test -c RACE -o "$T/demo.test" -vet=off -overlay "$T/o.json" -modfile="$T/go.mod" ./seeded || { echo "build failed"; exit 3; }
cd "$T" && ./demo.test
