# Sourced by the other scripts: offline Go, whatever the caller's settings are.
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS= GOENV=off GO111MODULE=on CGO_ENABLED=0 GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export GOVER_VERIF="$VERIF"
build_gover() {
  (cd "$VERIF/gover" && go build -o "$VERIF/bin/gover.$$" ./cmd/gover && mv -f "$VERIF/bin/gover.$$" "$VERIF/bin/gover")
}
