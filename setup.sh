#!/bin/bash
# The checks build from /repo themselves; this only confirms that the tools are there.
set -e
cd "$(dirname "$0")"
g++ --version >/dev/null && gcc --version >/dev/null && python3 -c 'import json, subprocess, concurrent.futures'
chmod +x check
echo "setup ok"
