#!/bin/bash
# run.sh <property|all|--build>: build the analyzer from the committed sources if needed, run one check.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0
unset GOROOT
bin="$here/bin/vcheck-static"
stamp="$(cat "$here"/analyzer/*.go "$here"/analyzer/go.mod "$here"/analyzer/go.sum | sha256sum | cut -d' ' -f1)"
mkdir -p "$here/bin" "$here/evidence"
if [ ! -x "$bin" ] || [ "$(cat "$here/bin/stamp" 2>/dev/null)" != "$stamp" ]; then
  (
    flock 9
    if [ ! -x "$bin" ] || [ "$(cat "$here/bin/stamp" 2>/dev/null)" != "$stamp" ]; then
      cd "$here/analyzer" && go build -trimpath -o "$bin.new" . >&2 || exit 2
      mv "$bin.new" "$bin" && echo "$stamp" > "$here/bin/stamp"
    fi
  ) 9> "$here/bin/lock" || { echo "analyzer does not build" >&2; exit 2; }
fi
[ "${1:-}" = "--build" ] && exit 0
export VERIF_DIR="$here"
exec "$bin" -property "$1" -tier "${2:-${VERIF_TIER:-quick}}"
