#!/bin/bash
# Runs demo.js on the TypeScript package of the current tree, its outside dependencies replaced by recording stand-ins.
exec node "$(dirname "$0")/demo.js" "$PWD/sdk/src" "$(cd "$(dirname "$0")" && pwd)/load.js"
