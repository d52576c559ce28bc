#!/bin/bash
# usage: check.sh ID quick|thorough
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore -m symex.run "$1" --tier "${2:-quick}" "${@:3}"
