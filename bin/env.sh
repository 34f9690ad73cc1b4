export HOME="${HOME:-/root}" PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0 TZ=UTC LC_ALL=C
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"; export VERIF_DIR
work="$(mktemp -d "${TMPDIR:-/tmp}/vcheck.XXXXXX")" || exit 2
export TMPDIR="$work"
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
(cd "$VERIF_DIR/engine" && go build -o "$work/engine" .) || { echo "check error: the engine does not build"; exit 2; }
