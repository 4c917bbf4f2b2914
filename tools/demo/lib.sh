# sourced by the demonstrations: scratch directory $T, server start/stop, helpers
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); B=/repo/_build
cleanup() { [ -n "${SRV:-}" ] && kill "$SRV" 2>/dev/null; wait 2>/dev/null; rm -rf "$T"; }
trap cleanup EXIT
start_srv() { # start_srv CONFIG-JSON
  [ -n "${SRV:-}" ] && { kill "$SRV" 2>/dev/null; wait "$SRV" 2>/dev/null; }
  echo "$1" > "$T/cfg.json"; rm -f "$T/up"; : > "$T/log"
  python3 "$here/srv.py" "$T/up" "$T/cfg.json" "$T/log" & SRV=$!
  for _ in $(seq 200); do [ -e "$T/up" ] && return; sleep 0.1; done; echo "server did not start" >&2; exit 0
}
dl() { timeout 100 "$B/hibp-download" --testing "$@" --no-progress 2>>"$T/err"; }
