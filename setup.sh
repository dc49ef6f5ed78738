#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" && exec python3 check.py --build
