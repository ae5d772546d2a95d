#!/bin/bash
# Nothing to compile: checks that the simulator boots on the present tree.
cd "$(dirname "$0")" || exit 1
exec ./check.sh selftest
