#!/bin/bash
# Nothing to build: the engine is Python and reads /repo's source on every run.  Fail early if the tools are missing.
cd "$(dirname "$0")" && python3-vt -c "import z3, sys; sys.path.insert(0, '.'); import symex.core, symex.values, symex.loader; print('z3', z3.get_version_string())"
