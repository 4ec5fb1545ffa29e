# Sourced by the scripts of /verif: an offline Go toolchain.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root}
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOWORK=off
export CGO_ENABLED=0
# /repo's go.mod is not part of the project; build.sh supplies it, and so do we.
if [ ! -f /repo/go.mod ] && [ -f /opt/vp/gomod/go.mod ]; then
  cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum /repo/ 2>/dev/null
fi
ulimit -c 0 2>/dev/null
