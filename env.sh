# The Go toolchain of /opt/vp/build.sh, offline. Sourced by setup.sh and check.sh.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)

# build OUT [go build flags]: builds the monitor against /repo's working tree.
# The harness is built in a copy, so that -mod=mod leaves its go.mod and go.sum alone.
build() {
	local out=$1 dir
	shift
	dir=$(mktemp -d /tmp/vh-src.XXXXXX) || return 2
	cp "$VERIF"/harness/* "$dir"/ && (cd "$dir" && go build "$@" -o "$out" .)
	local rc=$?
	rm -rf "$dir"
	return $rc
}

# build_web OUT [go flags]: builds the demo program with a test that starts it.
build_web() {
	local out=$1 dir
	shift
	dir=$(mktemp -d /tmp/vh-web.XXXXXX) || return 2
	cp /repo/go.mod /repo/go.sum "$dir"/ &&
		printf '{"Replace": {"/repo/webdemo_verif_test.go": "%s/web/webdemo_verif_test.go"}}' "$VERIF" >"$dir/overlay.json" &&
		(cd /repo && go test -c "$@" -vet=off -overlay "$dir/overlay.json" -modfile "$dir/go.mod" -o "$out" .)
	local rc=$?
	rm -rf "$dir"
	return $rc
}
