#!/bin/bash
# usage: run.sh [REPO]   runs the defect demonstrations against a MicroHTTP tree through an overlay.
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
ov=$(mktemp)
python3 - "$here" "$repo" > "$ov" <<'P'
import json,sys
h,r=sys.argv[1:]
print(json.dumps({"Replace":{f"{r}/{p+'/' if p!='main' else ''}defects_verif_test.go":f"{h}/{p}_defects_test.go" for p in ("guard","cache","tuna","debug","main")}}))
P
cd "$repo" && go test -race -vet=off -count=1 -timeout 120s -run TestDefect -overlay "$ov" . ./guard ./cache ./tuna ./debug 2>&1 | grep -E '^(---|===|ok|FAIL|PASS|WARNING: DATA|panic)|_test.go|still|DATA RACE' | grep -v '=== RUN'
rm -f "$ov"
