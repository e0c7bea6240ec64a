#!/bin/bash
# Nothing to install: checks build what they need.  This verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
g++ --version >/dev/null && python3 -c 'import json,struct,fcntl' && mkdir -p build evidence replays && echo "setup ok"
