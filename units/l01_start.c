/* L01: a built-in voice starts inside the real sample pool, for every region of the real library */
//@ file prop=L01,E02 mode=plain timeout=300 solver=cadical unwind=4 fs=20 nlink= nchecks=
#include "kit.h"
#include "eas_wtsynth.c"
#include "wt_200k_G.c"
#define N(a) (sizeof(a) / sizeof((a)[0]))
static S_VOICE_MGR VM; static S_SYNTH S; static S_SYNTH_VOICE PV; static EAS_U16 RX;
void EAS_CalcPanControl(EAS_INT p, EAS_I16 *l, EAS_I16 *r) { *l = *r = 0; }
//@ unit l01_start harness=h_start enforce=WT_StartVoice
void h_start(void)
{
    EAS_U32 lo = (EAS_U32) eas_samples, hi, base; const S_WT_VOICE *v; EAS_RESULT r;
    hi = lo + sizeof eas_samples;
    INPUT(S); INPUT(PV); INPUT(RX); PRE(RX < N(eas_regions)); S.pEAS = (S_EAS *) &easSoundLib;
    S.channels[PV.channel & 15].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    r = WT_StartVoice(&VM, &S, &PV, 1, RX); v = &VM.wtVoices[1];
    POST(r == EAS_SUCCESS && v->artIndex < N(eas_articulations), "the articulation exists");
    if (v->loopStart != WT_NOISE_GENERATOR) {
        base = lo + eas_sampleOffsets[eas_regions[RX].waveIndex];
        POST(v->phaseAccum == base && ((v->phaseAccum - lo) & 1) == 0, "reading starts at the first sample of the waveform");
        POST(v->loopStart >= base && v->loopStart <= v->loopEnd && v->loopEnd > base && v->loopEnd + sizeof(EAS_SAMPLE) <= base + eas_sampleLengths[eas_regions[RX].waveIndex] && v->loopEnd + sizeof(EAS_SAMPLE) <= hi, "the loop and the end lie inside the waveform, which lies inside the pool");
    }
    REACH();
}
