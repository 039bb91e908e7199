#!/bin/bash
# builds the libTooling front ends into /verif/build
cd "$(dirname "$0")" && exec python3 -c "
from glua import core
for n in ('gludump','glucheck'): print(core.dumper_path(n))"
