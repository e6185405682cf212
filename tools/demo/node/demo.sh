#!/bin/bash
# Bundles the extension as it is in /repo and drives it with a stand-in for the editor.
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
node "$here/bundle.cjs" "$t/extension.js" || exit 8
node "$here/demo.cjs" "$t/extension.js"
