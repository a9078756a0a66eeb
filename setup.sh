#!/bin/bash
# Nothing to install; build the tool once so that the checks find warm caches.
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence replays
. /opt/vp/env.sh
cd /repo && CARGO_TARGET_DIR=/repo/target cargo build --offline --bin svdtools
