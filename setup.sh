#!/bin/bash
# builds what the checks need from /repo's working tree into /verif/.cache; every
# check rebuilds (by content hash) whatever changed since.
cd "$(dirname "$0")" && exec python3-vt -m vlib.prebuild
