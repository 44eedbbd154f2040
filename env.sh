export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=1
export HOME="${HOME:-/root}"
export GOMAXPROCS="${GOMAXPROCS:-8}"
