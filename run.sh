#!/bin/bash
# usage: run.sh <property> [quick|thorough]        run a check
#        run.sh <property> replay <file>           replay a violation
#        run.sh <property> list | only <substr> [quick|thorough]
# Builds the harness against /repo's current tree (through a build overlay; /repo itself is not touched).
set -u
export HOME="${HOME:-/root}"
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"; export VERIF_DIR
REPO="${VERIF_REPO:-/repo}"
ID="$1"; MODE="${2:-${VERIF_TIER:-quick}}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GONOSUMDB=* GONOSUMCHECK=1 GOWORK="$REPO/go.work"
unset GOOS GOARCH
T="$(mktemp -d /tmp/verif.XXXXXX)"
trap 'rm -rf "$T"' EXIT
M=github.com/nanobus/iota/go
PKGS="" TAGS="" LEVEL=2 EXTRA="" VIRT="" NET=""
DIR="h_$(echo "$ID" | tr A-Z a-z)"
[ -f "$VERIF_DIR/harness/$DIR/conf.sh" ] && . "$VERIF_DIR/harness/$DIR/conf.sh"
Z="$REPO/internal/zzverif"
V="$VERIF_DIR/sched/vrt=$Z/vrt,$VERIF_DIR/sched/vsync=$Z/vsync,$VERIF_DIR/sched/vatomic=$Z/vatomic,$VERIF_DIR/sched/hx=$Z/hx,$VERIF_DIR/harness/$DIR=$Z/$DIR"
for l in $VIRT; do V="$V,$VERIF_DIR/harness/$l=$Z/$l"; done
(cd "$VERIF_DIR/instr" && GOWORK=off go build -o "$T/vinstr" .) >"$T/log" 2>&1 || { cat "$T/log"; echo "cannot build the instrumenter"; exit 2; }
[ -n "${STUBSRC:-}" ] && prepare "$T"
# packages the code has gained since are part of what is scheduled
if [ -n "$PKGS" ]; then
  OWN="$(for p in $PKGS; do echo "$M/$p"; done)"
  NEW="$(cd "$REPO" && go list -tags "$TAGS" -deps $OWN 2>/dev/null | grep "^$M/" | grep -v -x -F -f "$VERIF_DIR/instr/known.txt" | sed "s|^$M/||" | tr '\n' ' ')"
  PKGS="$PKGS $NEW"
fi
build() { # level
  mkdir -p "$T/o$1"
  FP=""; for p in $PKGS; do FP="$FP,$M/$p"; done
  "$T/vinstr" -repo "$REPO" -out "$T/o$1" -pkgs "${FP#,}" -tags "$TAGS" -level "$1" -virtual "$V" ${NET:+-net "$M/internal/zzverif/$NET"} -extra "$EXTRA" >"$T/log" 2>&1 || return 1
  (cd "$REPO" && go build -tags "$TAGS" -overlay "$T/o$1/overlay.json" -o "$T/h" ./internal/zzverif/$DIR) >>"$T/log" 2>&1
}
if ! build $LEVEL; then
  cp "$T/log" "$T/log2"
  if [ "$LEVEL" != 2 ] || ! build 1; then
    cat "$T/log2"; echo "cannot build the harness for $ID"; exit 2
  fi
  echo "note: built with scheduling points at synchronisation operations only:"; head -20 "$T/log2"
fi
[ -n "${KEEP:-}" ] && { mkdir -p "$KEEP"; cp -r "$T/." "$KEEP/"; }
case "$MODE" in
  replay) "$T/h" -replay "$3" -tier "${4:-$(sed -n 's/^ *"tier": "\(.*\)",/\1/p' "$3" | head -1)}" ;;
  list) "$T/h" -list ;;
  only) "$T/h" -only "$3" -tier "${4:-quick}" ;;
  *) "$T/h" -tier "$MODE" ;;
esac
exit $?
