#!/bin/bash
# timeall.sh [tier]: every check in turn, with its wall time (development aid).
cd "$(dirname "$0")/.."
for p in $(seq -f "C%02g" 1 28); do
	s=$(date +%s.%N)
	bash bin/check.sh $p ${1:-quick} 2>&1 | grep -v '^ ' | tail -3
	echo "   $p rc=${PIPESTATUS[0]} $(echo "$(date +%s.%N) - $s" | bc) s"
done
