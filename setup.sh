#!/bin/bash
# Nothing to build: the checks run the real code of /repo's working tree.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
mkdir -p evidence
"$PY" -c "import sys; sys.path.insert(0, '/repo'); import raster_tools, numpy, dask, xarray, scipy, shapely; print(raster_tools.__file__)"
