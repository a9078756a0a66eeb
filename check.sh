#!/bin/bash
# check.sh <ID> [quick|thorough|case N...]: run the check of one property.
cd "$(dirname "$0")" || exit 3
id=$1; shift
exec python3 -B -m "checks.$(echo "$id" | tr A-Z a-z)" "$@"
