#!/bin/sh
exec timeout 250 /opt/detools/venv/bin/python3 -B "$(dirname "$0")/demo.py"
