#!/bin/bash
# check.sh PROPERTY quick|thorough [replay.json]
# Builds the property's harness from /repo's working tree and runs it.
id=$1; tier=${2:-quick}; case=$3
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=${VERIF_REPO:-/repo}
case $id in
  C0[1-9]|C1[0-5]|C28|C29|C32) group=seq;  flags="-maps recengine/internal/infra/delta,recengine/internal/infra/index" ;;
  C16|C17|C18|C20|C31)         group=conc; flags="-full all" ;;
  C19|C21|C22|C25)         group=reg;  flags="-maps recengine/internal/infra/delta,recengine/internal/infra/index -os" ;;
  C34)                     group=conc; flags="-full all"; race=(-race "-gcflags=recengine/internal/zzverif/mc=-race=false") ;;
  C23)                     group=reg;  flags="-full all -os" ;;
  C24|C26|C27|C30|C33)       group=rest; flags="-server" ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
work=$(mktemp -d /tmp/verif.XXXXXX) || exit 3
shm=$(mktemp -d /dev/shm/verif.XXXXXX 2>/dev/null || mktemp -d /tmp/verif.XXXXXX) || exit 3
trap 'rm -rf "$work" "$shm"' EXIT
export VERIF_MODFILE=$work/go.mod GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cp "$repo/go.mod" "$work/go.mod" && cp "$repo/go.sum" "$work/go.sum" || exit 3
(cd "$here/tools/instrument" && go build -o "$work/instrument" .) || exit 3
"$work/instrument" -repo "$repo" -harness "$here/harness" -work "$work" $flags || exit 3
(cd "$repo" && go build "${race[@]}" -modfile="$work/go.mod" -overlay="$work/overlay.json" -o "$work/check" ./internal/zzverif/cmd/$group) || exit 3
if [ "$id" = C30 ]; then
  (cd "$repo" && go build -modfile="$work/go.mod" -o "$work/recengine" .) || exit 3
  export VERIF_MAIN=$work/recengine
fi
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
mkdir -p "$here/evidence" "$shm/scratch"
export VERIF_SCRATCH=$shm/scratch TMPDIR=$shm/scratch
if [ -n "$race" ]; then
  export VERIF_RACES=$shm/races
  export GORACE="log_path=$VERIF_RACES exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
fi
args=(-prop "$id" -tier "$tier" -evidence "$here/evidence/$id.json" -replay "$here/evidence/$id.replay.json" -known "$here/KNOWN_FINDINGS")
[ -n "$case" ] && args+=(-replaycase "$case")
rm -f "$here/evidence/$id.json" "$here/evidence/$id.replay.json"
cd "$shm/scratch"
"$work/check" "${args[@]}"
