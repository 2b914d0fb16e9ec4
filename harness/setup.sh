#!/bin/bash
# Build the harness once so that the first check starts from a warm tree.
cd "$(dirname "$0")" || exit 2
./build.sh hashed
