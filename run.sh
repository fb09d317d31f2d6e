#!/bin/bash
# Builds the harness from /repo's working tree and runs it:
#   run.sh check ID | thorough ID | replay FILE | list | show ID INDEX
# REPO selects another tree (for work on scratch copies).
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${REPO:-/repo}"
export HOME="${HOME:-/root}"
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false -trimpath"
BUILD="$(mktemp -d "${TMPDIR:-/tmp}/pdfverif.XXXXXX")" || exit 2
chmod 755 "$BUILD"
trap 'rm -rf -- "$BUILD"' EXIT
# Build from copies, so that nothing is written into the trees. The module
# files of /repo are not tracked; the copy gets its own.
mkdir -p "$BUILD/src/repo/pdf" "$BUILD/src/harness" || exit 2
cp "$REPO"/*.go "$BUILD/src/repo/" 2>/dev/null
(cd "$REPO" && tar cf - --exclude=.git --exclude='*.pdf' .) | (cd "$BUILD/src/repo" && tar xf -) || exit 2
cp "$HERE"/harness/*.go "$HERE"/harness/go.mod "$HERE"/harness/go.sum "$BUILD/src/harness/" || exit 2
if [ ! -e "$BUILD/src/repo/go.mod" ]; then
    printf 'module github.com/KarmaPenny/pdfparser\n\ngo 1.23\n\nrequire golang.org/x/image v0.47.0\n' > "$BUILD/src/repo/go.mod"
    cp "$HERE/harness/go.sum" "$BUILD/src/repo/go.sum"
fi
sed -i 's#=> /repo#=> ../repo#' "$BUILD/src/harness/go.mod"
RACE=
case " ${2:-} " in *" C21 "*|*/C21-*) RACE=-race;; esac
if ! { [ -n "$RACE" ] && (cd "$BUILD/src/harness" && CGO_ENABLED=1 go build -race -o "$BUILD/pdfverif" .) >"$BUILD/log" 2>&1; } &&
   ! (cd "$BUILD/src/harness" && go build -o "$BUILD/pdfverif" .) >"$BUILD/log" 2>&1; then
    cat "$BUILD/log" >&2; echo "CHECK-ERROR: cannot build the harness" >&2; exit 2
fi
if ! (cd "$BUILD/src/repo" && go build -o "$BUILD/pdfparser" .) >"$BUILD/log" 2>&1; then
    cat "$BUILD/log" >&2; echo "CHECK-ERROR: cannot build the tool" >&2; exit 2
fi
chmod 755 "$BUILD/pdfverif" "$BUILD/pdfparser"
"$BUILD/pdfverif" harvest "$BUILD/src/repo" > "$BUILD/dictionary" && chmod 644 "$BUILD/dictionary" && export PDFVERIF_DICT="$BUILD/dictionary"
rm -rf -- "$BUILD/src"
mkdir -m 755 "$BUILD/tmp"
export PDFVERIF_TMP="$BUILD/tmp" PDFVERIF_CLI="$BUILD/pdfparser"
export VERIF_SEED="${VERIF_SEED:-1}"
cmd="${1:-list}"; shift
case "$cmd" in
check)    export VERIF_TIER="${VERIF_TIER:-quick}"; id="$1"; shift; "$BUILD/pdfverif" check -prop "$id" -verif "$HERE" "$@"; exit $?;;
thorough) export VERIF_TIER=thorough; id="$1"; shift; "$BUILD/pdfverif" check -prop "$id" -verif "$HERE" "$@"; exit $?;;
replay)   "$BUILD/pdfverif" replay "$@"; exit $?;;
show)     "$BUILD/pdfverif" show -prop "$1" -index "$2"; exit $?;;
list)     "$BUILD/pdfverif" list; exit $?;;
esac
echo "unknown command $cmd" >&2; exit 2
