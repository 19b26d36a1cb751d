#!/bin/bash
# builds the IR exporter (every check builds it itself when it is missing)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
import front; front.tool('irx')"
