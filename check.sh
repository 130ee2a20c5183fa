#!/bin/sh
# check.sh PROPERTY            decide one property of /repo's current tree
# check.sh replay FILE         replay a violation on /repo's current tree
# check.sh one PROPERTY RUN    show one run (VERIF_SEED, VERIF_TIER)
# check.sh digest PROPERTY N   run N runs, print a digest of all event hashes
# check.sh all                 every property, in turn
# check.sh setup               build only
#
# Everything is built in a scratch directory that is removed at the end; /repo
# is only read. Exit 0: held on everything explored; 1: violated; 2: error.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
case $TIER in quick|thorough) ;; *) TIER=quick;; esac
case $SEED in ''|*[!0-9]*) SEED=1;; esac

W=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
case $W in /*/vsim.*) ;; *) echo "check.sh: bad scratch directory $W" >&2; exit 2;; esac
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
trap 'exit 2' INT TERM HUP

export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on GOWORK=off CGO_ENABLED=0
unset GOOS GOARCH GOEXPERIMENT GODEBUG

fail() { echo "check.sh: $*" >&2; cat "$W/log" >&2 2>/dev/null; exit 2; }

build() {
	cp -R "$HERE/sim" "$W/sim" || fail "copy"
	(cd "$W/sim" && go build -o "$W/xform.bin" ./xform) >"$W/log" 2>&1 || fail "the transformer does not build"
	mkdir "$W/mod" && cp "$REPO/go.mod" "$REPO/go.sum" "$W/mod/" || fail "no go.mod or go.sum in $REPO"
	XFORM_MODFILE="$W/mod/go.mod" "$W/xform.bin" -src "$REPO" -dst "$W/sim/nn" >"$W/log" 2>&1 || fail "the tree could not be transformed"
	cp "$REPO/go.sum" "$W/sim/go.sum" || fail "no go.sum"
	exp=$(awk '{ for (i = 1; i < NF; i++) if ($i == "golang.org/x/exp") { print $(i+1); exit } }' "$REPO/go.mod")
	[ -n "$exp" ] || exp=v0.0.0-20220915105810-2d61f44442a3
	cat >"$W/sim/go.mod" <<EOF
module verif.local/sim

go 1.23

require (
	github.com/cubeflix/nn v0.0.0
	golang.org/x/exp $exp
)

replace github.com/cubeflix/nn => ./nn
EOF
	(cd "$W/sim" && go build -o "$W/vsim" ./cmd/vsim) >"$W/log" 2>&1 || fail "the simulation does not build"
}

run() { # PROPERTY
	"$W/vsim" check -prop "$1" -tier "$TIER" -seed "$SEED" -dir "$HERE" -known "$HERE/KNOWN_FINDINGS.txt" -workers "${VERIF_WORKERS:-8}"
	rc=$?
	case $rc in 0|1) ;; *) rc=2;; esac
	return $rc
}

case ${1:-} in
setup)
	build
	"$W/vsim" list >/dev/null || fail "the simulation does not run"
	exit 0;;
replay)
	[ -f "$2" ] || { echo "check.sh: no file $2" >&2; exit 2; }
	build
	"$W/vsim" replay "$2"; exit $?;;
one)
	build
	"$W/vsim" one -prop "$2" -tier "$TIER" -seed "$SEED" -from "${3:-0}"; exit $?;;
digest)
	build
	"$W/vsim" check -prop "$2" -tier "$TIER" -seed "$SEED" -dir "$W" -workers "${VERIF_WORKERS:-8}" -count "${3:-200}" -digest; exit $?;;
all)
	build
	worst=0
	for p in $("$W/vsim" list); do
		run "$p"; rc=$?
		[ $rc -gt $worst ] && worst=$rc
	done
	exit $worst;;
[A-Z][0-9]*)
	build
	run "$1"; exit $?;;
*)
	sed -n '2,8p' "$0"; exit 2;;
esac
