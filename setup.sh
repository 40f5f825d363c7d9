#!/bin/bash
# Builds the four builds of the simulator (offline).
cd "$(dirname "$0")" && exec ./build.sh dev release mem cost
