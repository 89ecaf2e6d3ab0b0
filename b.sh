#!/bin/bash
# dev helper: build native chk (or: VARIANT=hooked)
. /opt/vp/env.sh; cd /verif/harness
v=${VARIANT:-native}; [ $v = hooked ] && export RUSTFLAGS="--cfg fhe_monitor"
CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/target/$v cargo build --offline --locked --profile ${1:-chk} 2>&1 | grep -E "^error" -A12 | head -${2:-80}
