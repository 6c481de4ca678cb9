#!/bin/bash
# Builds the checker from /verif/engine into /verif/bin.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd engine
go build -o ../bin/gosym.$$ .
mv ../bin/gosym.$$ ../bin/gosym
