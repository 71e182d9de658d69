#!/bin/bash
# Builds the checker, offline, from the committed files.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p bin evidence
cd checker && go build -o ../bin/oapiverif .
