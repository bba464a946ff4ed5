#!/bin/bash
# usage: tools/try.sh CXX... : run the quick checks and print the first lines of what they say
for i in "$@"; do python3 /verif/check.py $i 2>&1 | tail -8 | cut -c1-1200; done
