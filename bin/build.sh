# Sourced by check, replay and setup: builds the explorers from /repo's working
# tree into $OUT. Needs HERE (the directory of /verif). Arguments: flavours.
export HOME="${HOME:-/root}"
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin /usr/local/bin; do
	[ -x "$d/go" ] && { PATH="$d:$PATH"; break; }
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
: "${GOCACHE:=/root/.cache/go-build}" "${GOMODCACHE:=/root/go/pkg/mod}"
export GOCACHE GOMODCACHE
build() {
	rm -rf "$OUT/src"
	cp -r "$HERE/mc" "$OUT/src" || return 2
	(
		cd "$OUT/src" || exit 2
		pids=
		for f in "$@"; do
			case $f in
			sim) go build -tags sim -modfile=sim.mod -o "$OUT/mc-sim" . & ;;
			real) go build -o "$OUT/mc-real" . & ;;
			race) go build -race -o "$OUT/mc-race" . & ;;
			esac
			pids="$pids $!"
		done
		for p in $pids; do wait "$p" || exit 2; done
	)
}
