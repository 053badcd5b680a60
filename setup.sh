#!/bin/bash
# Nothing to build: confirms that the interpreter, Hypothesis and the package import.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. /opt/vp/env.sh
cd "$here" || exit 3
mkdir -p evidence replays
exec "$PY" -c "import hypothesis, numpy, zquantum.core.circuits, pbt.core; print('ok', zquantum.core.circuits.__file__)"
