# Sourced or run: builds the harness against /repo's working tree: plain, with the race detector and, for the
# thorough tier, with coverage instrumentation for the fuzzer.
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR
. /opt/vp/env.sh
VERIF_BIN="$VERIF_DIR/bin"
mkdir -p "$VERIF_BIN"
(
  cd "$VERIF_DIR/harness"
  flock 9
  if ! go build -o "$VERIF_BIN/qcheck" . ; then echo "ERROR: the harness does not build against /repo"; exit 2; fi
  if ! CGO_ENABLED=1 go build -race -o "$VERIF_BIN/qcheck-race" . ; then echo "ERROR: the race build failed"; exit 2; fi
  if [ "${VERIF_TIER:-quick}" = thorough ] || [ "${VERIF_FUZZ_S:-0}" != 0 ]; then
    if ! go test -c -fuzz=FuzzCase -o "$VERIF_BIN/qcheck-fuzz.test" . ; then echo "ERROR: the fuzzing build failed"; exit 2; fi
  fi
) 9>"$VERIF_BIN/.lock" || exit 2
