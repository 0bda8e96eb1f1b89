#!/bin/bash
# Warms the go build cache: builds every harness once, with and without the race detector.
cd "$(dirname "$0")" && exec python3 run.py --setup
