#!/bin/bash
# Builds the analysis: the rustc driver, the offline analysis workspace and the dependencies' metadata.
set -e
cd "$(dirname "$0")"
exec python3 -m sa.build setup
