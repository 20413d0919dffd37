#!/bin/bash
# Builds the extractor, the harness and the command line binary (offline).
cd "$(dirname "$0")" && exec python3 -c '
import check
r = check.parallel({"e": check.build_extract, "h": check.build_harness, "c": check.build_cli})
for k, v in r.items(): print(k, v[0], v[2][-500:])
raise SystemExit(r["e"][0])'
