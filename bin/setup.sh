#!/bin/bash
# Warms the Go build cache and makes sure the tools are there.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$d"' EXIT
bash "$here/bin/build_driver.sh" "$d" core_verif_test.go
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -x "$d/driver"
