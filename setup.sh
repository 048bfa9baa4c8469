#!/bin/bash
# Checks that everything the simulator needs is here; builds the I/O seam once as a test.
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
gcc -O2 -shared -fPIC -o "$t/kdshim.so" dst/shim.c -ldl
LD_PRELOAD="$t/kdshim.so" /opt/venv/bin/python -c "import h5py, numpy, pandas, xarray, dask.array, msgpack, karabo_bridge"
mkdir -p evidence replays
echo setup ok
