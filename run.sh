#!/bin/bash
# run.sh PROPERTY TIER: builds the harness against /repo's working tree and runs one check.
# The build goes to a scratch directory of its own; /repo is only read.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift 2
scratch="$(mktemp -d /tmp/hmverif.XXXXXX)" || exit 2
trap 'chmod -R u+w "$scratch" 2>/dev/null; rm -rf "$scratch"' EXIT
race=()
case "$prop" in C03) race=(-race) ;; esac
cd "$here/harness" || exit 2
if ! go build -buildvcs=false -mod=readonly "${race[@]}" -o "$scratch/hmcheck" ./cmd >"$scratch/build.log" 2>&1; then
  echo "check error: the harness does not build against /repo" >&2
  head -50 "$scratch/build.log" >&2
  exit 2
fi
if [ "$prop" = C25 ]; then
  if ! go build -buildvcs=false -mod=readonly -o "$scratch/html2markdown" github.com/JohannesKaufmann/html-to-markdown/v2/cli/html2markdown 2>"$scratch/build.log"; then
    echo "check error: the CLI does not build" >&2
    head -50 "$scratch/build.log" >&2
    exit 2
  fi
  export HM_CLI="$scratch/html2markdown"
fi
export TMPDIR="$scratch"
export GORACE="halt_on_error=1 exitcode=66 history_size=2"
"$scratch/hmcheck" "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$here" -findings "$here/known_findings.txt" "$@"
