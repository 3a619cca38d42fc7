#!/bin/bash
# usage: run.sh Cxx   decides one property on /repo's working tree
# usage: run.sh setup builds the verifier
cd "$(dirname "$0")" || exit 2
V=$PWD
if [ -x /opt/veriftools/go1.27.3/bin/go ]; then
	export GOROOT=/opt/veriftools/go1.27.3
	export PATH=$GOROOT/bin:$PATH
fi
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=0
B=$V/.build
mkdir -p "$B/gocache" 2>/dev/null
export GOCACHE=$B/gocache
(
	flock 9
	cd gvc && go build -o "$B/gvc" . 
) 9>"$B/lock" || { echo "cannot build gvc"; exit 2; }
[ "$1" = setup ] && exit 0
exec "$B/gvc" -prop "$1" -repo /repo -verif "$V"
