#!/bin/bash
cd "$(dirname "$0")" || exit 2
./build.sh cli || exit 2
