#!/bin/bash
# Nothing to install: the checks build their two small helpers (typed-tree dumper, exact LP) on demand.
. /opt/vp/env.sh >/dev/null 2>&1
command -v ocamlfind >/dev/null && command -v gcc >/dev/null && command -v python3 >/dev/null
