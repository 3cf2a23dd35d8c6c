#!/bin/bash
# Warm build of the monitors (checks rebuild anyway when run in a fresh copy).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --release --offline 2>&1 | tail -2
