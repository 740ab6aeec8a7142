#!/bin/bash
# Compiles the checker and warms the export data the loader needs.
cd "$(dirname "$0")" && ./run.sh C03 >/dev/null
exit 0
