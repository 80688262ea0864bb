#!/bin/sh
# Nothing to prepare: every check builds its simulator from /repo's working tree. This only makes sure that it can.
set -e
g++ --version | head -1
python3 --version
test -f /repo/chdr.hpp
