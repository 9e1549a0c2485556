#!/bin/sh
# warms the Go build cache and checks that the specifications parse; needs no network
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3 -c 'import sys; sys.path.insert(0, "."); from vf import lib; import tempfile, shutil; w = tempfile.mkdtemp(); lib.build_all(w); shutil.rmtree(w)'
