#!/bin/bash
# check.sh PROP: decide one property on /repo's current tree
cd "$(dirname "$0")" && exec python3 vf/run.py "$1"
