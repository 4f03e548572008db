#!/bin/bash
# nothing to build: the checks import /repo/src directly; make sure the interpreter can
cd "$(dirname "$0")" || exit 3
chmod +x run.sh
PYTHONDONTWRITEBYTECODE=1 ${VERIF_PYTHON:-/opt/venv/bin/python} -c "from mc import env; import ondil; print(ondil.__file__)"
