#!/bin/bash
# exit 0: the property holds; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
exec timeout 280 /opt/venv/bin/python -B "$D/demo.py"
