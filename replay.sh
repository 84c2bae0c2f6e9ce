#!/bin/bash
# replay.sh <property> <harness entry> <counterexample file>
# Builds /repo's current sources with sanitizers, links the harness of the property and runs the
# entry with exactly the recorded inputs. A violation makes it exit non-zero.
set -e
cd "$(dirname "$0")"
exec python3 check.py "$1" --replay "$2" "$3"
