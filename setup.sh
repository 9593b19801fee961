#!/bin/bash
# Builds all variants of the harness once.
cd "$(dirname "$0")" || exit 1
ROOT=$(pwd)
. /opt/vp/env.sh
. ./builds.sh
for v in base uc ps ui lg; do build_variant $v || exit 1; done
