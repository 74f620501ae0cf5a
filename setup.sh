#!/usr/bin/env bash
# Builds the harness once against /repo (checks rebuild what changed themselves).
set -u
cd "$(dirname "${BASH_SOURCE[0]}")"
./run.sh prebuild
