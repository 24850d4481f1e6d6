#!/bin/bash
# Lists all harness functions (exported, no arguments) for native replay.
cd "$(dirname "$0")/../harness/h" || exit 1
{
echo "package h"
echo
echo "// All lists the harness functions for native replay."
echo "var All = map[string]func(){"
grep -hoE '^func [A-Z][A-Za-z0-9]*\(\) \{' *.go | sed -E 's/func ([A-Za-z0-9]+)\(\) \{/\t"\1": \1,/' | sort
echo "}"
} > registry.go
gofmt -w registry.go
