#!/bin/bash
# ./run.sh <PROPERTY> [quick|thorough|--replay FILE]   or   ./run.sh --build
# Builds the harness against /repo's working tree and runs one property.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT=$PWD
export VERIF_ROOT
cd harness || exit 2
T=${CARGO_TARGET_DIR:-$PWD/target}
mkdir -p "$T"
# cargo decides by modification times; a tree that was swapped underneath it may carry old ones
now=$(cd /repo && find lofty lofty_attr ogg_pager Cargo.toml -path '*/target' -prune -o -type f \
	\( -name '*.rs' -o -name '*.toml' -o -name '*.md' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$T/.stamp" 2>/dev/null)" ]; then
	cargo clean --offline -q -p lofty -p lofty_attr -p ogg_pager -p harness 2>/dev/null
fi
if ! cargo build --offline -q >"$T/build.log" 2>&1; then
	cat "$T/build.log" >&2
	echo "the harness does not build against /repo" >&2
	exit 2
fi
echo "$now" >"$T/.stamp"
[ "$1" = --build ] && exit 0
P=$1
shift
case "$1" in
thorough) shift; set -- --thorough "$@" ;;
quick) shift ;;
esac
exec "$T/debug/vh" "$P" "$@"
