#!/bin/bash
# check.sh <property> [quick|thorough] [monitor flags]: decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=${1:?usage: check.sh PROPERTY [quick|thorough] [flags]}
shift
tier=${VERIF_TIER:-quick}
case $1 in quick | thorough)
	tier=$1
	shift
	;;
esac
flags=()
case $id in
C12 | C42) flags=(-race) ;;
C26 | C27 | C28 | C32 | C33 | C36 | C37) flags=(-tags vss) ;;
C29 | C30 | C31 | C34 | C35 | C38 | C39 | C41) flags=(-tags exp) ;;
C43) flags=(-tags "vss exp") ;;
esac
bin=$(mktemp -d /tmp/vh-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
build "$bin/vh" "${flags[@]}" || { echo "ERROR: the monitor does not build" >&2; exit 2; }
case $id in
C32 | C36 | C37 | C43)
	race=
	[ "$id" != C32 ] || race=-race
	build_web "$bin/web.test" $race || { echo "ERROR: the demo program does not build" >&2; exit 2; }
	export VERIF_WEBBIN=$bin/web.test VERIF_DIR=$VERIF
	;;
esac
"$bin/vh" -verif "$VERIF" -seed "${VERIF_SEED:-1}" -tier "$tier" "$@" "$id"
