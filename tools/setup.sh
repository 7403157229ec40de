#!/bin/bash
# builds the extractor; the checks build it themselves if it is not there
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'lib')
import prog; print(prog.ensure_tool())"
