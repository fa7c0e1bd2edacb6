#!/bin/bash
# Builds the instrumenter and one simulator binary once, to fill Go's build cache.
cd "$(dirname "$0")" || exit 1
VS_RUNS=1 VS_VERIF_SETUP=1 ./run.sh debug C16 0 1 > /dev/null
