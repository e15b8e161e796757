#!/bin/bash
# replay.sh FILE: runs the commands of FILE on the library in /repo and shows where the specification disagrees
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d "$here/out/replay.XXXXXX")
trap 'rm -rf "$w"' EXIT
m=Trace; c=Trace; d="$here/spec"; r=run
if head -1 "$1" | grep -q 'stage [a-z]*_wide'; then m=WTrace; c=WTrace; d="$here/spec/wide"; r=wrun; fi
if head -1 "$1" | grep -q 'stage known_'; then c=TraceStrict; fi
"$here/harness/build.sh" "$w" && ASAN_OPTIONS=detect_leaks=0 "$w/exec" $r "$1" "$w/t.nd"
cat "$w/t.nd"
cd "$d" && TRACE="$w/t.nd" java -DTLA-Library="$here/spec" -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  tlc2.TLC -workers 1 -noGenerateSpecTE -config $c.cfg -metadir "$w/md" $m.tla | grep -E 'MISMATCH|DONE|Error'
