#!/bin/sh
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec python3 -m mirlint.run "$1" "${2:-quick}"
