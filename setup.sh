#!/bin/sh
# builds the IR normaliser and warms the analysis cache; offline
cd "$(dirname "$0")" || exit 1
exec python3 sa/build.py
