# Offline Go settings (same values as /opt/vp/env.sh, with defaults when absent).
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
export CGO_ENABLED="${CGO_ENABLED:-0}"
unset TICAT_SESSION 2>/dev/null || true
export GORACE="exitcode=0 atexit_sleep_ms=0"
