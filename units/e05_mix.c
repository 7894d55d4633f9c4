/* E05: the final mix. The engine only ever mixes whole render blocks (NMAX = 512 interleaved samples); smaller blocks are sampled as well. */
//@ file link=eas_mixer.c mode=plain timeout=100 solver=cadical unwind=520 fs=600
#include "kit.h"
#include "eas_data.h"
#include "eas_mixer.h"
#include "eas_host.h"
#include "eas_config.h"
#ifndef NN
#define NN 0
#endif
#define NMAX (2 * BUFFER_SIZE_IN_MONO_SAMPLES)
static EAS_I32 MIX[NMAX + 1], OMIX[NMAX + 1]; static EAS_PCM OUT[NMAX + 2], OOUT[NMAX + 2];
static EAS_U16 G, N, W;
static S_EAS_DATA ED;
static S_EFFECTS_INTERFACE FX;
static EAS_U8 FX_calls, FX_bad; static EAS_PCM FX_seen;
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { EAS_I32 i; if (s != (void *) MIX || c != 0 || n < 0 || n > (EAS_I32) (NMAX * sizeof(EAS_I32)) || n % (EAS_I32) sizeof(EAS_I32)) { FX_bad = 1; return s; } for (i = 0; i < n / (EAS_I32) sizeof(EAS_I32); i++) MIX[i] = 0; return s; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { return NULL; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { return NULL; }
SPEC_BEGIN
static EAS_PCM mixed(EAS_I32 acc, EAS_U16 gain)
{
    EAS_I32 v = ((acc >> 7) * (EAS_I32) gain) >> 9;
    return (EAS_PCM) (v > 32767 ? 32767 : v < -32768 ? -32768 : v);
}
SPEC_END
/* the accumulator: 64 voices and all PCM streams together stay below 2^35 in magnitude */

//@ unit e05_value prop=E05 harness=h_value enforce=SynthMasterGain kind=bounded bound=blocks_of_up_to_3_samples cases=NN:0:1:2:3 solver=cadical
static EAS_I32 MS[5]; static EAS_PCM OS[5], OOS[5];
void h_value(void)
{
    unsigned i;
    INPUT(MS); INPUT(OS); INPUT(G);
    G %= 2048;      /* the gain is a 15-bit master gain without its guard bits */
    for (i = 0; i < 5; i++) { MS[i] >>= 28; OOS[i] = OS[i]; }     /* every value the accumulator can reach */
    SynthMasterGain(MS, OS + 1, G, NN);
    POST(OS[0] == OOS[0], "nothing before the block is written");
    for (i = 0; i < 4; i++) POST(OS[i + 1] == (i < NN ? mixed(MS[i], G) : OOS[i + 1]), "a sample is its accumulator scaled by the gain and clamped to 16 bits; nothing past the block is written");
    REACH();
}
//@ unit e05_block prop=E05 harness=h_block enforce=SynthMasterGain fs=16 timeout=200 nochecks=signed-overflow
//@ loop[e05_block] SynthMasterGain:0 locals: pInputBuffer, pOutputBuffer, numSamples; assigns: numSamples, pInputBuffer, pOutputBuffer, OUT; inv: numSamples <= N && pInputBuffer == MIX + (N - numSamples) && pOutputBuffer == OUT + 1 + (N - numSamples)
//@ inv+ && (W >= 1 && W <= N - numSamples || OUT[W] == OOUT[W])
void h_block(void)
{
    INPUT(MIX); INPUT(OUT); INPUT(G); INPUT(W); INPUT(N);
    N %= NMAX + 1; G %= 2048; W %= NMAX + 2; OOUT[W] = OUT[W];
#ifdef VK_NATIVE
    { unsigned i; for (i = 0; i < NMAX + 1; i++) MIX[i] >>= 28; }
#endif
    SynthMasterGain(MIX, OUT + 1, G, N);
    POST((W >= 1 && W <= N) || OUT[W] == OOUT[W], "nothing outside the block is written");
#ifdef VK_NATIVE
    if (W >= 1 && W <= N) POST(OUT[W] == mixed(MIX[W - 1], G), "a sample is its accumulator scaled by the gain and clamped to 16 bits");
#endif
    REACH();
}
static EAS_I32 fx_process(EAS_VOID_PTR d, EAS_PCM *in, EAS_PCM *out, EAS_I32 n)
{
    if (in != OUT || out != OUT || n * 2 != N || d != (FX_calls ? (void *) &OOUT : (void *) &OMIX)) FX_bad = 1;
    if (FX_calls == 0) FX_seen = OUT[W];
    FX_calls++;
    return 0;
}
static EAS_U8 RV, CH;
//@ unit e05_post prop=E05 harness=h_post enforce=EAS_MixEnginePost replace=SynthMasterGain:c_gain native=0 inline=0
static EAS_U16 CG; static EAS_U8 C_calls;
void c_gain(EAS_I32 *in, EAS_PCM *out, EAS_U16 gain, EAS_U16 n)
{
    if (in != MIX || out != OUT || n != N) FX_bad = 1;
    CG = gain; C_calls++; OUT[W] = OOUT[W];
}
static EAS_I16 MG;
void h_post(void)
{
    INPUT(G); INPUT(N); INPUT(W); INPUT(RV); INPUT(CH); INPUT(OOUT); INPUT(OUT); INPUT(MG);
    N %= NMAX + 1; N &= ~1; PRE(W < NMAX); PRE(MG >= 0); FX_calls = FX_bad = C_calls = 0;
    ED.pMixBuffer = MIX; ED.pOutputAudioBuffer = OUT; ED.masterGain = MG;
    *(void **) &FX.pfProcess = (void *) fx_process;
    ED.effectsModules[EAS_MODULE_REVERB].effect = &FX; ED.effectsModules[EAS_MODULE_CHORUS].effect = &FX;
    ED.effectsModules[EAS_MODULE_REVERB].effectData = RV & 1 ? (void *) &OMIX : NULL;
    ED.effectsModules[EAS_MODULE_CHORUS].effectData = CH & 1 ? (RV & 1 ? (void *) &OOUT : (void *) &OMIX) : NULL;
    EAS_MixEnginePost(&ED, N / 2);
    POST(!FX_bad && C_calls == 1, "one block is mixed down and handed to the effects in order");
    POST(CG == (MG >> 4), "the gain is the master gain without its guard bits");
    POST(FX_calls == (RV & 1) + (CH & 1) && (!FX_calls || FX_seen == OOUT[W]), "every enabled effect runs once on the mixed block");
    POST(OUT[W] == OOUT[W], "with no effect the mixed block is the output");
    REACH();
}
//@ unit e05_prep prop=E05 harness=h_prep enforce=EAS_MixEnginePrep cases=NN:0:2:10:512
void h_prep(void)
{
    unsigned i;
    INPUT(MIX); INPUT(W); N = NN; PRE(W < NMAX); FX_bad = 0; ED.pMixBuffer = MIX;
    for (i = 0; i < NMAX + 1; i++) OMIX[i] = MIX[i];
    EAS_MixEnginePrep(&ED, N / 2);
    POST(!FX_bad, "only the mix buffer is cleared");
    POST(MIX[W] == (W < N ? 0 : OMIX[W]), "a block starts from silence");
    REACH();
}
