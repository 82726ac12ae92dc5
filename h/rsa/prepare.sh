#!/bin/bash
# Builds the RSA program from /repo's working tree. Expects env.sh sourced.
set -e
here=$(cd "$(dirname "$0")/../.." && pwd)
cd "$here/sut/rsa_circuit" && cargo build --offline --locked
