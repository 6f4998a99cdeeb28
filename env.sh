# Sourced by every script here: the offline toolchain.
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
