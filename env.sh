# Sourced by build.sh and check.sh: an offline Go toolchain.
[ -d /opt/veriftools/go1.23.12/bin ] && export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOOS GOARCH
