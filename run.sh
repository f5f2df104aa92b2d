#!/bin/bash
# run.sh <property> | replay FILE | build [FILE]: rebuilds the explorer from
# /repo's working tree and runs one property's exploration.
export HOME=${HOME:-/root}
V=$(cd "$(dirname "$0")" && pwd)
GO=/opt/veriftools/go1.23.12
export PATH=$GO/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOWORK=off
W=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT

overlay() { # std hmac with the injection hook
	sed 's/^func New(h func() hash.Hash, key \[\]byte) hash.Hash {/func New0(h func() hash.Hash, key []byte) hash.Hash {/' \
		"$GO/src/crypto/hmac/hmac.go" > "$W/hmac.go" &&
	grep -q '^func New0(' "$W/hmac.go" &&
	printf '{"Replace":{"%s":"%s","%s":"%s"}}\n' "$GO/src/crypto/hmac/hmac.go" "$W/hmac.go" \
		"$GO/src/crypto/hmac/verif_hook.go" "$V/harness/overlay/hmac_hook.go" > "$W/overlay.json"
}
gobuild() { # gobuild OVERLAY OUT flags...
	local o=$1 out=$2; shift 2
	(cd "$V/harness" && go build -modfile "$W/go.mod" -overlay "$o" -o "$out" "$@" ./cmd/mc)
}
build() {
	overlay || return 1
	cp "$V/harness/go.mod" "$W/go.mod" && cp "$V/harness/go.sum" "$W/go.sum" || return 1
	if [ "$1" = C27 ]; then # scheduling points in the packages under test
		mkdir "$W/i" && (cd "$V/harness" && go run -modfile "$W/go.mod" ./cmd/instr /repo "$V/harness" "$W/i" "$W/overlay.json") > "$W/instr.out" || return 1
		grep -q '^free$' "$W/instr.out" || {
			gobuild "$W/i/overlay.json" "$W/mc" -tags conc 2> "$W/err" &
			gobuild "$W/i/overlay.json" "$W/mcrace" -tags conc -race; local r=$?
			wait $! && [ $r -eq 0 ] && export MC_RACE=$W/mcrace && return 0
			cat "$W/err" >&2
		}
		# goroutines, channels or sync features beyond the stand-in: no control
		(cd "$V/harness" && go run -modfile "$W/go.mod" ./cmd/instr -plain /repo "$V/harness" "$W/i" "$W/overlay.json") > /dev/null &&
		gobuild "$W/i/overlay.json" "$W/mc" -tags conc && gobuild "$W/i/overlay.json" "$W/mcrace" -tags conc -race &&
		export MC_RACE=$W/mcrace MC_FREE=1
		return
	fi
	case $1 in C28|C29) ui || return 1 ;; esac
	gobuild "$W/overlay.json" "$W/mc"
}
ui() { # the example program on the window stand-in
	local g; g=$(cd /repo && cp go.mod "$W/ui.mod" && cp go.sum "$W/ui.sum" && go list -modfile "$W/ui.mod" -m -f '{{.Dir}}' gioui.org) || return 1
	cp -r --no-preserve=mode "$g" "$W/gio" && rm -rf "$W/gio/app" && mkdir "$W/gio/app" && cp "$V/harness/ui/app.go.src" "$W/gio/app/app.go" || return 1
	sed -i 's/^\tsemantic\.Editor\.Add(gtx\.Ops)$/&\n\tsemantic.LabelOp(e.Text()).Add(gtx.Ops)/' "$W/gio/widget/editor.go"
	grep -q 'LabelOp(e.Text())' "$W/gio/widget/editor.go" || return 1
	printf '\nreplace gioui.org => %s\n' "$W/gio" >> "$W/ui.mod"
	(cd /repo && go build -modfile "$W/ui.mod" -o "$W/ui" ./examples/ui/one) && export MC_UI=$W/ui
}
case "$1" in
replay)
	build "$(sed -n 's/.*"[pP]roperty": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)" || { echo "build failed" >&2; exit 2; }
	"$W/mc" -verif "$V" -replay "$2"; exit $? ;;
build)
	build || exit 2
	[ -n "$2" ] && cp "$W/mc" "$2"; exit 0 ;;
*)
	build "$1" || { echo "build failed" >&2; exit 2; }
	export MC_GO=$GO
	"$W/mc" -verif "$V" -check "$@"; exit $? ;;
esac
