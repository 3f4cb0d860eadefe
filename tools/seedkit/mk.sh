#!/bin/bash
# mk.sh ID: refresh the kit of /verif/seeded/ID (patch.diff, demo.rs and meta.json are written by hand)
cd "$(dirname "$0")"; D=../../seeded/$1; mkdir -p "$D"
cp demo.sh "$D/"; rm -rf "$(realpath "$D")/kit"; cp -r kit "$D/"; cp -r ../../stubs "$D/kit/"; cp ../../Cargo.lock "$D/kit/"
