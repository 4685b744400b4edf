#!/bin/bash
# Runs one replay file in this process, with the sanitizer's and the program's own output
LD_PRELOAD=$(gcc -print-file-name=libasan.so) ASAN_OPTIONS=detect_leaks=0 exec python3-vt ${DBG:-} /verif/tools/one.py "$@"
