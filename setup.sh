#!/bin/bash
# Nothing is built ahead of time: the checks import /repo/src as it is and TLC interprets the specifications.
# This only makes sure that the tools are there and that every specification parses.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import grpc, deepproto, google.protobuf'
mkdir -p evidence replays
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
out=$(cd spec && java -cp $CP tla2sany.SANY -error-codes *.tla 2>&1) || { echo "$out"; exit 1; }
echo "setup ok: $(ls spec/*.tla | wc -l) specifications parsed"
