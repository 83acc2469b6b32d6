#!/bin/bash
# Builds the simulator together with the current sources of /repo into /verif/build (incremental).
set -e
cd "$(dirname "$0")"
exec make -s -f sim/Makefile -j "${JOBS:-8}" REPO="${REPO:-/repo}" "$@"
