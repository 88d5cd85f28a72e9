#!/bin/bash
# Runs jarl's own unit and integration tests (unedited) on the tree mirrored from
# /repo, linked against the stand-ins: how the stand-ins are shown to be faithful.
# Known differences: 2 tests on clap's help text, 1 on imaginary literals (.8i).
cd "$(dirname "$0")/.." && python3 sync.py && cd harness2 && \
INSTA_ROOT=$PWD CARGO_NET_OFFLINE=true cargo test --offline -p jarl-core -p jarl -p jarl-lsp --no-fail-fast 2>&1 | grep -E "FAILED|^test result|^error"
