#!/bin/bash
# replay.sh FILE   re-execute a recorded violation against /repo's working tree (exit 1: it still happens)
f=$(realpath "$1") && bash "$(dirname "$0")/check.sh" "$f" replay
