export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
