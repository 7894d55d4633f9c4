#!/bin/bash
# builds demo.c against the library just built in the current directory (the repository) and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
inc=$(find "$repo/_build" -name eas.h -path '*libsonivox*' 2>/dev/null | head -1)
D="-DDLS_SYNTHESIZER -DEAS_WT_SYNTH -DMAX_SYNTH_VOICES=64 -DNUM_OUTPUT_CHANNELS=2 -DUNIFIED_DEBUG_MESSAGES -D_16_BIT_SAMPLES -D_CHORUS_ENABLED -D_FILTER_ENABLED -D_REVERB_ENABLED -D_SAMPLE_RATE_44100"
gcc -w -g -O1 $D -I"$here" -I"$(dirname "$inc")" -I"$repo/_build" -I"$repo/arm-wt-22k/host_src" -I"$repo/arm-wt-22k/lib_src" -I"$repo/fakes" -I"$repo/arm-wt-22k/include" "$here/demo.c" "$repo/_build/libsonivox-static.a" -lm -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
