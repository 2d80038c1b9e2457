# Go toolchain, offline.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod
