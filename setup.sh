#!/bin/sh
# Compiles the dependencies of the harness once, so that the checks start faster.
# Nothing it produces is needed: every check builds what it runs itself.
exec "$(dirname "$0")/check.py" --setup
