#!/bin/bash
# Nothing is built: the verifier is JavaScript and reads /repo on every run.  This only makes sure that what it needs is there.
set -e
cd "$(dirname "$0")/.."
node --version && z3-new --version && /opt/deno/deno --version | head -1
test -f /opt/veriftools/node/node_modules/typescript/lib/typescript.js
mkdir -p evidence replays
