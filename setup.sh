#!/bin/bash
# build the IR extractor and the syntax-tree walker from the committed sources
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0, 'vp')
import fw; print(fw.build_tool('irx'), fw.build_tool('astq'))"
