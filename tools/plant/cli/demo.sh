#!/bin/bash
# Runs the built client against demo.py's stand-in for a cluster.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1
exec timeout -k 5 280 python3 "$here/demo.py"
