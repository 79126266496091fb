#!/bin/bash
# run.sh PROPERTY [quick|thorough]   checks one property against /repo's working tree
# run.sh replay FILE                 re-executes the case of a reported violation
# run.sh build                       builds the harness only (setup)
# Exit 0: the property held on everything explored; 1: VIOLATION; 2: error of the check.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export VERIF_SEED=${VERIF_SEED:-1}
dir=$(cd "$(dirname "$0")" && pwd)
case "$1" in
replay)
	[ -f "$2" ] || { echo "usage: run.sh replay FILE" >&2; exit 2; }
	prop=$(sed -n 's/^ "property": "\(.*\)",*$/\1/p' "$2")
	tier=$(sed -n 's/^ "tier": "\(.*\)",*$/\1/p' "$2")
	key=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["case"])' "$2")
	;;
build) prop=build ;;
*)
	prop=$1
	tier=${2:-${VERIF_TIER:-quick}}
	;;
esac
[ -n "$prop" ] || { echo "usage: run.sh PROPERTY [quick|thorough]" >&2; exit 2; }
work=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
TMPDIR=$work
export TMPDIR

# The overlay adds the harness to /repo's module without touching /repo.
overlay() { # overlay OUT EXTRA...
	local out=$1 sep='{"Replace":{'
	shift
	{
		for f in "$dir"/harness/zzverif/*.go; do
			printf '%s\n"/repo/zzverif/%s":"%s"' "$sep" "$(basename "$f")" "$f"
			sep=,
		done
		printf ',\n"/repo/render/zz_verif_export.go":"%s"' "$dir/harness/render/zz_verif_export.go"
		for f in "$dir"/harness/vsync/*.go; do
			printf ',\n"/repo/zzvsync/%s":"%s"' "$(basename "$f")" "$f"
		done
		for e in "$@"; do printf ',\n%s' "$e"; done
		printf '\n}}\n'
	} >"$out"
}

build() { # build OUT EXTRA-FLAGS
	local out=$1
	shift
	(cd /repo && go build "$@" -o "$out" ./zzverif)
}

overlay "$work/overlay.json"
if ! build "$work/zzverif" -overlay "$work/overlay.json" 2>"$work/build.log"; then
	cat "$work/build.log" >&2
	exit 2
fi
if [ "$prop" = build ]; then
	exit 0
fi
# Builds with the race detector: as is, and with the concurrent code under the controlled scheduler.
case $prop in
C03)
	build "$work/zzrace" -race -overlay "$work/overlay.json" 2>>"$work/build.log" && export ZZRACE=$work/zzrace
	mkdir "$work/rw"
	if go run "$dir/harness/rewrite/main.go" /repo/render "$work/rw" >"$work/rw.list" 2>>"$work/build.log"; then
		mapfile -t extra <"$work/rw.list"
		overlay "$work/overlay-ctl.json" "${extra[@]}"
		build "$work/zzctl" -race -overlay "$work/overlay-ctl.json" 2>>"$work/build.log" && export ZZCTL=$work/zzctl
	fi
	[ -z "$ZZRACE$ZZCTL" ] && cat "$work/build.log" >&2
	;;
C28)
	build "$work/zzrace" -race -overlay "$work/overlay.json" 2>>"$work/build.log" && export ZZRACE=$work/zzrace
	;;
esac
cd "$work" || exit 2
if [ -n "$key" ]; then
	"$work/zzverif" "$prop" "$tier" "$dir" "$key"
else
	"$work/zzverif" "$prop" "$tier" "$dir" 2>"$work/stderr"
fi
rc=$?
case $rc in
0 | 1) exit $rc ;;
2) # The Go runtime ended the process (panic in another goroutine, concurrent map access, deadlock...)
	tail -n 60 "$work/stderr" >&2
	if grep -qE '^(panic:|fatal error:)' "$work/stderr"; then
		mkdir -p "$dir/evidence/replay"
		cp "$work/stderr" "$dir/evidence/replay/$prop.stderr"
		echo "VIOLATION property=$prop replay=$dir/evidence/replay/$prop.stderr"
		exit 1
	fi
	exit 2
	;;
*)
	[ -f "$work/stderr" ] && tail -n 60 "$work/stderr" >&2
	exit 2
	;;
esac
