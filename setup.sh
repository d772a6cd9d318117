#!/bin/bash
# Builds the harness once, so that the checks' own builds find a warm build cache. Nothing is fetched.
cd "$(dirname "$0")" && exec ./build.sh
