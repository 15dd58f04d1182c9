#!/bin/bash
# builds the replay harness once and checks that the verifier starts
set -e
cd "$(dirname "$0")"
(cd harness && cargo build --offline -q)
verus --version >/dev/null
