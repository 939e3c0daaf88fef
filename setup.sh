#!/bin/bash
# Builds the code under test once so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
exec python3 -c '
import sys; sys.dont_write_bytecode = True
from engine import common
print(common.build("dbg"))
'
