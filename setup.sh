#!/bin/bash
# Builds the conformance harness (plain and hooked) from /repo's current tree.
set -e
cd "$(dirname "$0")"
exec python3 -c '
from vk.core import Ctx
c = Ctx("setup", "quick")
c.build_all(); c.build_all(hook=True); c.cleanup()'
