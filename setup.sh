#!/bin/sh
# Nothing is kept between runs: every check builds its compiler driver and reads /repo's current source itself.
cd "$(dirname "$0")" || exit 2
rustc +nightly --version && python3 --version && mkdir -p evidence reports
