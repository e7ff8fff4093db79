#!/bin/bash
# pack_lang_deps.sh OUT.tgz: the stand-in and vendored crates a demonstration for the language needs
cd /verif/harness/lang && tar -cz --owner=0 --group=0 -f "$1" Cargo.lock stubs vendor .cargo
