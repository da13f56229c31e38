#!/bin/bash
# Builds the rustc driver into /verif/build (every check also does this on its own when it is absent).
cd "$(dirname "$0")" || exit 1
exec python3 -c "import sys; sys.path.insert(0,'vlib'); import runner; print(runner.driver(runner.env()))"
