#!/bin/bash
# Linker for the simulation builds: rustc adds its ThreadSanitizer runtime under
# -Zsanitizer=thread, but the simulator supplies those symbols itself.
args=()
for a in "$@"; do
    case $a in
    *rt.tsan.a | *rustc-*_rt.tsan*) ;;
    *) args+=("$a") ;;
    esac
done
exec cc "${args[@]}"
