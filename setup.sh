#!/bin/bash
# Builds the MIR dumping driver and warms the dependency builds.
cd "$(dirname "$0")" || exit 1
set -e
t=build/warm.json
tools/dump.sh "$PWD/$t"
VP_DBG=true tools/dump.sh "$PWD/$t"
tools/dump.sh "$PWD/$t" --features std,bincode-codec,postcard-codec,unstable-notifications
rm -f "$PWD/$t"
