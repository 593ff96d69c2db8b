#!/bin/bash
# builds the exporter (clang AST -> JSON); the checks build it themselves if this has not run
cd "$(dirname "$(readlink -f "$0")")"
python3-vt -c '
import sys; sys.argv=["x"]
import check; print(check.exporter())'
