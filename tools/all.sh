#!/bin/bash
# run every quick check; print the summary lines
cd "$(dirname "$0")/.."
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}; do /opt/venv/bin/python check.py $p quick 2>&1 | tail -1 | cut -c1-150; done
