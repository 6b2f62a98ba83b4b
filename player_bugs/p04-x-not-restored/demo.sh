#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
