#!/bin/bash
# builds the IR tool; every check compiles /repo's current sources itself
cd "$(dirname "$0")" && python3 -c "
from fw import build
build.tool(); build.tool('fweff')
print('analysis tool built')"
