#!/bin/sh
# replay.sh FILE: run the recorded inputs of a violation on the real code again
exec python3 "$(dirname "$0")/lib/replay.py" "$1"
