#!/bin/bash
# checks that the tools needed by the checks are there (nothing has to be built)
cd "$(dirname "$0")/.." || exit 2
set -e
/opt/venv/bin/python -c 'import numpy, scipy, numexpr, netCDF4, eccodes; from osgeo import gdal'
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
mkdir -p evidence
