#!/bin/bash
# builds the harness once, so that the checks only rebuild what changed
cd "$(dirname "$0")" || exit 2
python3 -c 'import sys; sys.path.insert(0, "lib"); import drv; drv.build()'
