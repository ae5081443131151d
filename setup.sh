#!/bin/bash
# nothing to build: pure Python, run from /repo's working tree; verify the tools are importable
cd "$(dirname "$0")" || exit 1
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -c "from vt import boot; import hypothesis, devpi_server.main, devpi_common.url; print('ok', hypothesis.__version__)"
