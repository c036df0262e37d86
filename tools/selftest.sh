#!/bin/sh
# Self-test of the symbolic execution: compares each modelled operation (props/x00_ops.py) with the real one,
# for every value within the bounds.
cd "$(dirname "$0")/.." || exit 2
exec env VERIF_EVIDENCE="${VERIF_EVIDENCE:-$(mktemp -d)}" ./check.py X00 --keep-going "$@"
