#!/bin/bash
# Builds the extractor and the harness; checks build them themselves when needed.
cd "$(dirname "$0")"
(cd tools/vx && cargo build --offline --release --quiet)
(cd harness && cargo build --offline --quiet)
exit 0
