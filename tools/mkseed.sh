#!/bin/bash
# mkseed.sh ID: from the change in /tmp/seed/ID.diff, the demonstration in
# /tmp/seed/ID.rs and the texts in /tmp/seed/ID.{prop,needs,breaks}, write
# /verif/seeded/ID and confirm it in a scratch clone of /repo.
id="$1"; t="/tmp/seed/$id"; d="/verif/seeded/$id"; w="/tmp/ws-$id"
mkdir -p "$d"
cp -r /verif/tools/demo/{snowflaked,awslc,Cargo.lock,Cargo.toml.in,common.rs,demo.sh} "$d"/
cp "$t.rs" "$d/main.rs"; cp "$t.diff" "$d/patch.diff"
python3 - "$d" "$t" <<'P'
import sys,json
d,t=sys.argv[1:]
r=lambda e:open(t+e).read().strip()
json.dump({"property":r(".prop"),"needs":r(".needs"),"what_it_breaks":r(".breaks")},open(d+"/meta.json","w"),indent=1)
P
rm -rf "$w"; git clone -q /repo "$w"
(cd "$w" && bash "$d/demo.sh" >"$t.out0" 2>&1; echo "$id unchanged: exit $?")
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
(cd "$w" && bash "$d/demo.sh" >"$t.out1" 2>&1; echo "$id changed: exit $?")
rm -rf "$w"
