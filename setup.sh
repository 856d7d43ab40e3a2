#!/bin/bash
# Builds the symbolic execution engine (build/sx) and its model library.
cd "$(dirname "$0")" && exec python3 -c 'import check; print(*check.ensure_engine())'
