#!/bin/bash
# Builds the lowering tool and lowers the current tree once (checks rebuild both when they are missing or stale).
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, 'engine')
import load; load.tool(); load.load(); load.load(omp=True)"
