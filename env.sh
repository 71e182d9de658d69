# go toolchain and caches, offline
for d in /opt/veriftools/go1.26.10/bin /opt/veriftools/go1.26*/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && { PATH="$d:$PATH"; break; }
done
export HOME="${HOME:-/root}"
[ -w "$HOME" ] || HOME=/tmp
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
