#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator and the library from /repo's working tree, explores, writes the evidence.
# check.sh --replay FILE: runs one replay file against the current tree (add -v for the full event log).
# exit 0: the property held on everything explored; 1: violated (VIOLATION line); 2: the tree does not build.
cd "$(dirname "$0")" || exit 2
V=$PWD; mkdir -p out evidence work; W=$(mktemp -d "$V/work/b.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT; trap 'exit 2' INT TERM
build() { mkdir -p "$W/$1" && bash build.sh "$W/$1" "$1" || { echo "the current tree does not build"; exit 2; }; }
if [ "$1" = --replay ]; then F=$(sed -n 's/^flavour //p' "$2" | head -1); F=${F:-std}; build $F; "$W/$F/sim" --app "$W/$F/app.so" --work "$W/w" --replay "$2" ${3:+--verbose}; r=$?; [ $r = 4 ] && r=1; exit $r; fi
run() { # flavour seed evidence options
  local f=$1 s=$2 e=$3; shift 3
  "$W/$f/sim" --app "$W/$f/app.so" --work "$W/w" --prop "$P" --tier "$T" --seed "$s" --flavour $f --evidence "$e" --replaydir "$V/out" --known "$V/known_findings.txt" "$@"; r=$?
  [ $r = 3 ] && { echo "a run failed and did not fail again when repeated; nothing is reported"; r=0; }; return $r
}
P=$1 T=${2:-quick} S=${VERIF_SEED:-1}; M=std; case $P in H26) M=gpu;; H27) M=rocm;; H28) M=oneapi;; esac # the backends for devices need a library of their own
build $M
run $M "$S" "$V/evidence/$P.json" $([ "$T" = thorough ] && echo --deadline 540); r=$?
case $M in std) F="scalar ub";; oneapi) F=oneapi24;; *) F=;; esac # std: the library without vector instructions and assertions, and with traps on undefined behaviour
if [ $r = 0 ] && [ "$T" = thorough ]; then # the same search
  for f in $F; do build $f; run $f $((S + 1000)) "$W/$f.json" --deadline 70; r=$?; python3 tools/merge.py "$V/evidence/$P.json" $f "$W/$f.json" || r=2; [ $r = 0 ] || break; done
fi
exit $r
