#!/bin/bash
# Symbolizes [0x...] addresses on stdin against binary $1.
exec python3 "$(dirname "$0")/sym.py" "$1"
