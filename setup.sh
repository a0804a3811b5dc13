#!/bin/bash
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/nntile-venv/bin/python vlib/build.py plain asan
