#!/bin/bash
# check.sh <property> [quick|thorough] [family-filter]   decide one property on /repo's working tree
# check.sh replay <file>                                 re-run one recorded counterexample
# Exit 0: held; 1: violated (VIOLATION line); 2: error of the check (for instance: does not build).
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. tools/env.sh
mkdir -p .build evidence
# build <name> <profile> [features]: binary in .build/<name>/sudoku-mc
build() {
	local name=$1 profile=$2 features=$3 log=.build/build-$1-$$.log
	export CARGO_TARGET_DIR=$VERIF_ROOT/.build/target-$name
	# cargo goes by mtime; forget the crate under test so that it is always rebuilt from the current tree
	rm -rf "$CARGO_TARGET_DIR"/"$profile"/.fingerprint/sudoku-*
	if ! (cd mc && cargo build --profile "$profile" ${features:+--features "$features"} --offline --locked) >"$log" 2>&1; then
		grep -A15 "^error" "$log" | head -60 >&2
		rm -f "$log"
		echo "CHECK-ERROR: the harness does not build ($name)" >&2
		return 2
	fi
	rm -f "$log"
	mkdir -p ".build/$name"
	cp -f "$CARGO_TARGET_DIR/$profile/sudoku-mc" ".build/$name/sudoku-mc"
}
# These checks explore everything twice: in a build without debug assertions and in one with them.
TWICE=" C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C28 C29 C30 "
case "$TWICE" in *" $1 "*) twice=1 ;; *) twice= ;; esac
if [ "$1" = replay ] && grep -q '"build": "plain"' "$2"; then twice=1; fi
others=
if [ "$1" = C04 ] || { [ "$1" = replay ] && grep -q '"C04"' "$2"; }; then others=1; fi
if [ -n "$others" ]; then
	build plain plain &
	p1=$!
	build unchecked release unchecked &
	p2=$!
	build plain-unchecked plain unchecked &
	p3=$!
fi
if [ -n "$twice" ]; then
	build plain plain &
	p1=$!
fi
build release release || exit 2
if [ -n "$twice" ]; then wait $p1 || exit 2; fi
if [ -n "$others" ]; then wait $p1 && wait $p2 && wait $p3 || exit 2; fi
ulimit -v 24000000
ulimit -c 0
case "$1" in
replay)
	bin=release
	if grep -q '"build": "plain"' "$2"; then bin=plain; fi
	exec .build/$bin/sudoku-mc replay "$2"
	;;
*)
	if [ -n "$twice" ]; then
		MC_BUILD=plain .build/plain/sudoku-mc run "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"} || exit
	fi
	exec .build/release/sudoku-mc run "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"}
	;;
esac
