#!/bin/sh
# all.sh [JOBS]: every rule on $BLEND_REPO, quietly
cd "$(dirname "$0")/.." && ls sa/rules >/dev/null && grep -oh '@prop("C[0-9]*"' sa/rules/*.py | grep -o 'C[0-9]*' | sort -u | xargs -P ${1:-6} -I{} sh -c 'timeout 800 python3 check.py {} > /tmp/all.$$.{} 2>&1; echo "$? $(tail -1 /tmp/all.$$.{})"; grep -h "^BROKEN" /tmp/all.$$.{} | cut -c1-200; rm -f /tmp/all.$$.{}'
