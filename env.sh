VERIF_ROOT=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$VERIF_ROOT:${REPO_UNDER_TEST:-/repo}:/opt/veriftools/pyvenv/lib/python3.12/site-packages
export PYTHONHASHSEED=0
PY=/opt/venv/bin/python
