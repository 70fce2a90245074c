#!/bin/bash
# development: run a check with one file as it was in the original repository
# onbase.sh Cxx path...
id=$1; shift
cd /repo && git status --porcelain | grep -q . && { echo dirty; exit 1; }
git checkout -q 2b964c9 -- "$@"
(cd /verif && bash run.sh $id quick 2>&1 | grep -v '^  File\|^    ' | head -${LINES_OUT:-8})
git checkout -q HEAD -- "$@"
