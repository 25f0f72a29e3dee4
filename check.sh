#!/bin/bash
# check.sh ID [quick|thorough]   decide a property
# check.sh --replay ID           run the property's harness on the real code
# check.sh --build               build the verifier
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p "$here/bin" "$here/evidence"
build() {
	if [ ! -x "$here/bin/gover" ] || [ -n "$(find "$here/gover" -newer "$here/bin/gover" -name '*.go' | head -1)" ]; then
		(cd "$here/gover" && go build -o "$here/bin/gover.$$" . && mv "$here/bin/gover.$$" "$here/bin/gover") || exit 1
	fi
}
build
case "$1" in
--build) exit 0 ;;
--replay) unset GOFLAGS; exec "$here/bin/gover" replay "$2" ;;
esac
unset GOFLAGS
exec "$here/bin/gover" check "$1" "${2:-${VERIF_TIER:-quick}}"
