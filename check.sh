#!/bin/bash
# check.sh ID [--thorough]: decides one property from /repo's current sources
cd "$(dirname "$0")" && exec python3-vt -m glua.common "$@"
