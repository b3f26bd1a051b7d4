#!/bin/sh
# Builds the analyser and the first set of facts, offline.
set -e
cd "$(dirname "$0")"
exec ./check --facts
