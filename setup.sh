#!/bin/sh
# Nothing is kept between checks: make sure that everything a check needs is there and builds.
cd "$(dirname "$0")" && exec python3 check --setup
