#!/bin/bash
# check.sh ID quick|thorough [--section NAME]
# Rebuilds the harness from /repo's current tree, explores, exits 0 (held), 1 (VIOLATION) or 2 (error of the check).
set -u
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift || true
root=$(cd "$(dirname "$0")" && pwd)
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export VERIF_ROOT=$root VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=$root/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p "$root/evidence/replay" "$root/target"
rm -f -- "$root/evidence/replay/$id.txt"
log=$root/target/$id.build.log
prof=quick; feat=(); full=0
if [ "$tier" = thorough ]; then prof=release; feat=(--features deep); full=1; fi
# Where the full bounds take less than about a minute, the quick tier explores them too: unoptimised
# where that is fast enough, else optimised. (C03 has one set of bounds, C12 a smaller one here.)
case " $id " in
  *" C12 "*) ;;
  *" C04 "*|*" C05 "*|*" C09 "*|*" C14 "*|*" C16 "*|*" C17 "*|*" C20 "*|*" C21 "*|*" C25 "*|*" C27 "*|*" C28 "*) prof=release; full=1;;
  *) full=1;;
esac
export CGL_FULL=$full
build() { ( cd "$root/harness" && timeout 600 cargo build --profile $prof --offline --locked "${feat[@]}" --bin "$bin" ) >"$log" 2>&1; }
if ! build; then
  # A build killed from outside (memory, signal) is retried once; it is never a verdict.
  if ! grep -q '^error' "$log" || grep -qi 'signal:\|No space left\|could not compile.*signal' "$log"; then
    build || { cat "$log" | tail -40 >&2; echo "ERROR: harness build failed for an outside reason" >&2; exit 2; }
  else
    # rustc rejected the library, or the library no longer offers what the property's users call.
    if grep -Eq '^error(\[E[0-9]+\])?: ' "$log" && grep -q -- '-->' "$log"; then
      rp=$root/evidence/replay/$id.txt
      { echo "property: $id"; echo "the programs that use this part of the library no longer compile:"; grep -A12 '^error' "$log" | head -80; } >"$rp"
      printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false, "samples": ["the driver programs no longer compile against the library"]}, "wall_s": 0, "violations": 1}\n' "$id" "$tier" "$VERIF_SEED" >"$root/evidence/$id.json"
      grep '^error' "$log" | head -5
      echo "VIOLATION property=$id replay=$rp"
      exit 1
    fi
    tail -40 "$log" >&2; echo "ERROR: harness build failed" >&2; exit 2
  fi
fi
ulimit -v 28000000 2>/dev/null
ulimit -c 0 2>/dev/null
err=$root/target/$id.run.log
"$root/target/$prof/$bin" "$tier" "$@" 2>"$err"
rc=$?
cat "$err" >&2
# A library call that panics while the cases are prepared (101) or brings the process down (stack
# overflow, invalid memory access) is a violation; running out of memory or being killed is not a verdict.
case $rc in
  101|132|134|135|136|139)
    if ! grep -q 'memory allocation of' "$err"; then
      rp=$root/evidence/replay/$id.txt
      { echo "property: $id"; echo "tier: $tier"; echo "observed: the library brought the program down (exit status $rc)"; tail -20 "$err"; } >"$rp"
      printf '{"property": "%s", "tier": "%s", "seed": %s, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": false, "samples": ["the library brought the program down"]}, "wall_s": 0, "violations": 1}\n' "$id" "$tier" "$VERIF_SEED" >"$root/evidence/$id.json"
      echo "VIOLATION property=$id replay=$rp"
      exit 1
    fi
    exit 2;;
esac
exit $rc
