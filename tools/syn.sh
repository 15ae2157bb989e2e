#!/bin/bash
# syn.sh harness PART: quick syntax check
R=${DISKPP_REPO:-/repo}; W=$(dirname "$0")/..
g++ -std=c++20 -O0 -w -fsyntax-only -DPART=$2 -I $W/lib -I $W/lib/stubs -I$R/libdiskpp/include -I$R/libdiskpp/contrib/triangle -I$R/libdiskpp/contrib/jburkardt/include -isystem /usr/include/eigen3 $W/harness/$1.cpp 2>&1 | grep -E "error" | cut -c1-300 | head -${3:-12}
