# Go settings of the checks: like /opt/vp/env.sh, but writing nothing outside $1.
ROOT="${ROOT:-/verif}"
verif_env() { # $1: scratch directory for the module file copies
  export HOME=/root
  export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
  export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
  export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
  unset GOROOT GOBIN GOOS GOARCH
  cp /repo/go.mod "$1/mute.mod"
  cat /repo/go.sum /opt/vp/extra.sum 2>/dev/null | LC_ALL=C sort -u > "$1/mute.sum"
  export GOFLAGS="-mod=readonly -modfile=$1/mute.mod"
}
verif_build() { # $1: output file
  (cd "$ROOT/govc" && GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' go build -o "$1" .)
}
