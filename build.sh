#!/bin/bash
# build.sh MODE...   builds the harness against /repo's current working tree, into $VERIF_BUILD (default /verif/build)
#   maps    bin/harness: map iteration order under control (falls back to the plain sources if rewriting fails)
#   points  bin/harness-points: in addition a scheduling point before every statement
#   race    bin/harness-race: plain sources, race detector
#   cli     bin/bbn: the command line tool as it is
#   bbni    bin/bbni: the interactive app with a scripted screen (tcell.NewScreen replaced, nothing else)
set -u
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=${VERIF_BUILD:-$V/build}
. /opt/vp/env.sh
export GOWORK=off
mkdir -p "$B/bin"

# module file: the repository's own requirements, with the repository itself and tcell replaced by directories
TCELL=$(cd /repo && go list -m -f '{{.Dir}}' github.com/gdamore/tcell/v2 2>/dev/null)
if [ ! -f "$B/tcell/.done" ] || ! cmp -s "$V/instrument/rt/scripted.go.txt" "$B/tcell/scripted.go"; then
  rm -rf "$B/tcell.tmp" "$B/tcell"
  cp -r "$TCELL" "$B/tcell.tmp" && chmod -R u+w "$B/tcell.tmp" || exit 2
  rm -rf "$B/tcell.tmp/_demos" "$B/tcell.tmp/logos" "$B/tcell.tmp/webfiles"
  python3 - "$B/tcell.tmp/screen.go" <<'P' || exit 2
import sys
p = sys.argv[1]; s = open(p).read()
a = "func NewScreen() (Screen, error) {\n"
assert a in s
s = s.replace(a, "// ScreenHook supplies the screen, if set.\nvar ScreenHook func() (Screen, error)\n\n" + a + "\tif ScreenHook != nil {\n\t\treturn ScreenHook()\n\t}\n")
open(p, "w").write(s)
import os
d = os.path.dirname(p)
for f, a in (("key.go", "func (ev *EventKey) Key() Key {\n"), ("mouse.go", "func (ev *EventMouse) Position() (int, int) {\n")):
    q = os.path.join(d, f); s = open(q).read()
    assert a in s
    open(q, "w").write(s.replace(a, a + "\tseen(ev)\n"))
P
  cp "$V/instrument/rt/scripted.go.txt" "$B/tcell.tmp/scripted.go" || exit 2
  touch "$B/tcell.tmp/.done"; mv "$B/tcell.tmp" "$B/tcell"
fi
{
  echo "module github.com/mlange-42/bbn/verif"
  echo
  echo "go 1.23.0"
  sed -e '/^module /d' -e '/^go /d' -e '/^toolchain /d' /repo/go.mod
  echo "require github.com/mlange-42/bbn v0.0.0"
  echo "replace github.com/mlange-42/bbn => /repo"
  echo "replace github.com/gdamore/tcell/v2 => $B/tcell"
} > "$B/harness.mod"
cp /repo/go.sum "$B/harness.sum"

(cd "$V/instrument" && go build -o "$B/bin/instrument" .) || exit 2

overlay() { # mode -> overlay dir
  rm -rf "$B/ov-$1"
  "$B/bin/instrument" /repo "$B/ov-$1" "$1" "$V/instrument/rt"
}

for m in "$@"; do
  case $m in
    maps|points)
      out=harness; [ $m = points ] && out=harness-points
      ok=0
      if overlay $m; then
        (cd "$V/harness" && go build -mod=mod -modfile="$B/harness.mod" -overlay="$B/ov-$m/overlay.json" -o "$B/bin/$out" .) && ok=1
      fi
      if [ $ok = 0 ]; then
        overlay plain || exit 2
        (cd "$V/harness" && go build -mod=mod -modfile="$B/harness.mod" -overlay="$B/ov-plain/overlay.json" -o "$B/bin/$out" .) || exit 2
      fi ;;
    race)
      overlay plain || exit 2
      (cd "$V/harness" && go build -race -mod=mod -modfile="$B/harness.mod" -overlay="$B/ov-plain/overlay.json" -o "$B/bin/harness-race" .) || exit 2 ;;
    cli)
      (cd /repo && go build -o "$B/bin/bbn" ./cmd/bbn) || exit 2 ;;
    bbni)
      { cat /repo/go.mod; echo "replace github.com/gdamore/tcell/v2 => $B/tcell"; } > "$B/bbni.mod"
      cp /repo/go.sum "$B/bbni.sum"
      printf 'package main\n\nimport (\n\t"time"\n\n\t"github.com/rivo/tview"\n)\n\n// every click is a click of its own\nfunc init() { tview.DoubleClickInterval = -time.Hour }\n' > "$B/bbni_init.go"
      echo "{\"Replace\": {\"/repo/cmd/bbni/verif_init.go\": \"$B/bbni_init.go\"}}" > "$B/bbni.json"
      (cd /repo && go build -mod=mod -modfile="$B/bbni.mod" -overlay="$B/bbni.json" -o "$B/bin/bbni" ./cmd/bbni) || exit 2 ;;
  esac
done
exit 0
