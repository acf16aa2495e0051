#!/bin/bash
# the checks build everything themselves from the current tree; here only: does the tool chain work?
cd "$(dirname "$0")" || exit 2
mkdir -p out evidence work; W=$(mktemp -d "$PWD/work/s.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
bash build.sh "$W" && echo "setup: the simulator and the library build"
