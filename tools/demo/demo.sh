#!/bin/bash
# Compiles the library's sources (current directory) with demo.c and runs it in a scratch directory.
exec python3 "$(dirname "$0")/run.py"
