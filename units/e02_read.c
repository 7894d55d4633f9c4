/* E02: rendering a voice reads only its waveform and writes only its block */
//@ file mode=plain timeout=200 solver=cadical unwind=4 fs=20 nlink=
//@ assume a waveform has at least two samples and at most 2^24; a loop of a region lies inside its waveform (checked for the built-in library by L01)
#include "kit.h"
#include "eas_wtengine.c"
static EAS_U32 NSAMP, LO, LS, LE, POS, OPOS, FRAC, V_lo, V_hi, V_far; static EAS_I32 INC, NUM, N0; static EAS_PCM BUF[BUFFER_SIZE_IN_MONO_SAMPLES + 2], OBUF0, OBUF1; static EAS_SAMPLE *W;
static S_WT_VOICE V, OV; static S_WT_INT_FRAME F, OF;
#ifdef VK_NATIVE
#define WAVE() do { unsigned k; NSAMP %= 64; PRE(NSAMP >= 2); W = malloc(NSAMP * 2); for (k = 0; k < NSAMP; k++) W[k] = (EAS_SAMPLE) vk_rand(); } while (0)
#else
void *malloc(__CPROVER_size_t);
#define WAVE() do { PRE(NSAMP >= 2 && NSAMP <= 0x1000000); W = malloc(NSAMP * 4 + 140000); PRE(W != (void *) 0); } while (0)
#endif
SPEC_BEGIN
static void setup(int looped)
{
    INPUT(NSAMP); INPUT(LO); INPUT(LS); INPUT(LE); INPUT(POS); INPUT(FRAC); INPUT(INC); INPUT(NUM); INPUT(V); INPUT(BUF);
#ifdef VK_NATIVE
    if (vk_random_mode()) { NSAMP = 2 + vk_rand() % 40; LE = 1 + vk_rand() % (NSAMP - 1); LS = vk_rand() % LE; LO = 0; POS = vk_rand() % LE; INC = vk_rand() % ((LE - LS + 1) << 15); if (vk_rand() % 4 == 0) INC = (EAS_I32) (LE - LS) << 15; NUM = (EAS_I32) (vk_rand() % 300) - 10; if (!looped) { LS = LE; INC = vk_rand() % 0x30000; } }
#endif
    WAVE();
    PRE(LE < NSAMP && LS <= LE && POS <= LE - !looped && (!looped || LS < LE) && (looped || (LS == LE && LE >= 1)));
    PRE(INC >= 0 && INC <= 0x80100000L); if (looped) PRE(INC <= (EAS_I32) ((LE - LS) << 15));
    V.loopStart = (EAS_U32) (W + LS); V.loopEnd = (EAS_U32) (W + LE); V.phaseAccum = (EAS_U32) (W + POS);
    FRAC = V.phaseFrac & 32767; F.frame.phaseIncrement = INC; F.pAudioBuffer = BUF + 1; F.numSamples = NUM; OV = V; OF = F;
    N0 = NUM <= 0 ? 0 : NUM > BUFFER_SIZE_IN_MONO_SAMPLES ? BUFFER_SIZE_IN_MONO_SAMPLES : NUM; OBUF0 = BUF[0]; OBUF1 = BUF[BUFFER_SIZE_IN_MONO_SAMPLES + 1];
    LO = POS < LS ? POS : LS; V_lo = (EAS_U32) (W + LO); V_hi = (EAS_U32) (W + LE); V_far = (EAS_U32) (W + LE) + 2 * (LE - LS);
}
static int same_rest(void) { S_WT_VOICE t = V; t.phaseAccum = OV.phaseAccum; t.phaseFrac = OV.phaseFrac;
    return t.loopEnd == OV.loopEnd && t.loopStart == OV.loopStart && t.gainLeft == OV.gainLeft && t.gainRight == OV.gainRight && t.eg1Value == OV.eg1Value && t.eg1State == OV.eg1State && t.artIndex == OV.artIndex && t.filter.z1 == OV.filter.z1 && t.filter.z2 == OV.filter.z2; }
SPEC_END
//@ unit e02_loop prop=E02 harness=h_loop enforce=WT_Interpolate
//@ loop[e02_loop] WT_Interpolate:1 locals: pOutputBuffer, phaseFrac, acc0, pSamples, pNext, samp1, samp2, numSamples, nextSamplePhaseInc; assigns: pOutputBuffer, phaseFrac, acc0, pSamples, pNext, samp1, samp2, numSamples, nextSamplePhaseInc, BUF; inv: numSamples >= 0 && numSamples <= N0 && pOutputBuffer == BUF + 1 + (N0 - numSamples) && __CPROVER_same_object(pSamples, W) && ((unsigned long)pSamples & 1) == 0
//@ inv+ && (unsigned long)pSamples >= V_lo && (unsigned long)pSamples <= V_hi && phaseFrac >= 0 && phaseFrac <= 32767 && BUF[0] == OBUF0 && BUF[257] == OBUF1 && samp1 >= -32768 && samp1 <= 32767 && samp2 >= -32768 && samp2 <= 32767
//@ loop[e02_loop] WT_Interpolate:0 locals: pSamples; assigns: pSamples; inv: __CPROVER_same_object(pSamples, W) && ((unsigned long)pSamples & 1) == 0 && (unsigned long)pSamples >= V_lo && (unsigned long)pSamples <= V_far
void h_loop(void)
{
    setup(1); WT_Interpolate(&V, &F);
    POST(same_rest(), "only the read position of the voice moves");
    POST(BUF[0] == OBUF0 && BUF[BUFFER_SIZE_IN_MONO_SAMPLES + 1] == OBUF1, "nothing outside the block is written");
    if (NUM <= 0) POST(V.phaseAccum == OV.phaseAccum && V.phaseFrac == OV.phaseFrac, "no samples, no move");
    else {
        POST(V.phaseFrac <= 32767, "the fractional position stays in its unit interval");
        POST(V.phaseAccum >= (EAS_U32) (W + LO) && V.phaseAccum <= (EAS_U32) (W + LE), "the position never passes the loop end, and once in the loop never precedes its start");
    }
    REACH();
}
//@ unit e02_once prop=E02 harness=h_once enforce=WT_InterpolateNoLoop
//@ loop[e02_once] WT_InterpolateNoLoop:0 locals: pOutputBuffer, phaseFrac, acc0, pSamples, samp1, samp2, numSamples, nextSamplePhaseInc; assigns: pOutputBuffer, phaseFrac, acc0, pSamples, samp1, samp2, numSamples, nextSamplePhaseInc, BUF; inv: numSamples >= 0 && numSamples <= N0 && pOutputBuffer == BUF + 1 + (N0 - numSamples) && __CPROVER_same_object(pSamples, W) && ((unsigned long)pSamples & 1) == 0
//@ inv+ && (unsigned long)pSamples >= V_lo && (unsigned long)pSamples < V_hi && phaseFrac >= 0 && phaseFrac <= 32767 && BUF[0] == OBUF0 && BUF[257] == OBUF1 && samp1 >= -32768 && samp1 <= 32767 && samp2 >= -32768 && samp2 <= 32767
void h_once(void)
{
    setup(0); LO = POS; V_lo = (EAS_U32) (W + POS); WT_InterpolateNoLoop(&V, &F);
    POST(same_rest(), "only the read position of the voice moves");
    POST(BUF[0] == OBUF0 && BUF[BUFFER_SIZE_IN_MONO_SAMPLES + 1] == OBUF1, "nothing outside the block is written");
    if (NUM <= 0) POST(V.phaseAccum == OV.phaseAccum && V.phaseFrac == OV.phaseFrac, "no samples, no move");
    else POST(V.phaseAccum >= OV.phaseAccum && V.phaseAccum < (EAS_U32) (W + LE), "a one-shot waveform is read forwards and never past its last sample");
    REACH();
}
/* the value of one sample, from any position */
#ifndef LP
#define LP 1
#endif
SPEC_BEGIN
static EAS_PCM between(EAS_I32 a, EAS_I32 b, EAS_I32 f) { return (EAS_PCM) ((a + (((b - a) * f) >> 15)) >> 2); }
SPEC_END
//@ unit e02_value prop=E02 harness=h_value enforce=WT_Interpolate kind=bounded bound=blocks_of_one_sample,_waveforms_of_8_samples cases=LP:0:1 covers=WT_InterpolateNoLoop nochecks=signed-overflow
void h_value(void)
{
    EAS_U32 p; EAS_PCM b2;
    setup(LP); PRE(NSAMP <= 8); FRAC &= 32767; PRE(NUM == 1); b2 = BUF[2];
    if (LP) WT_Interpolate(&V, &F); else WT_InterpolateNoLoop(&V, &F);
    POST(BUF[1] == between(W[POS], POS < LE ? W[POS + 1] : W[LS], (EAS_I32) FRAC), "a sample lies between the two samples next to the read position; the last of a loop is followed by its first");
    POST(BUF[2] == b2, "one sample is written");
    p = POS + ((FRAC + (EAS_U32) INC) >> 15);
    if (LP) { if (p > LE) p -= LE - LS + 1; POST(V.phaseAccum == (EAS_U32) (W + p), "the position moves by the pitch increment, inside the loop once it is reached"); POST(V.phaseFrac == ((FRAC + (EAS_U32) INC) & 32767), "and so does its fraction"); }
    else if (p < LE) { POST(V.phaseAccum == (EAS_U32) (W + p) && V.phaseFrac == ((FRAC + (EAS_U32) INC) & 32767), "the position moves by the pitch increment"); }
    else POST(V.phaseAccum == OV.phaseAccum, "the position stays before the end");
    REACH();
}
/* mixing one voice into the block */
#ifndef GN
#define GN 1
#endif
static EAS_I32 MIX[2 * BUFFER_SIZE_IN_MONO_SAMPLES + 2], OM0, OM1, OM4[4]; static EAS_PCM SRC[BUFFER_SIZE_IN_MONO_SAMPLES], OSRC; static EAS_U16 SK;
static void mixer(void)
{
    INPUT(MIX); INPUT(SRC); INPUT(V); INPUT(F); INPUT(NUM); INPUT(SK); SK %= 256;
#ifdef VK_NATIVE
    if (vk_random_mode()) { NUM = (EAS_I32) (vk_rand() % 300) - 10; F.prevGain &= 32767; F.frame.gainTarget &= 32767; }
    { unsigned k; for (k = 0; k < 514; k++) MIX[k] >>= 32; }
#endif
    PRE(F.prevGain >= 0 && F.prevGain <= 32767 && F.frame.gainTarget >= 0 && F.frame.gainTarget <= 32767);
    F.pAudioBuffer = SRC; F.pMixBuffer = MIX + 1;
}
//@ unit e02_mix prop=E02 harness=h_mix enforce=WT_VoiceGain nochecks=signed-overflow
//@ loop[e02_mix] WT_VoiceGain:0 locals: pMixBuffer, pInputBuffer, gain, tmp0, tmp1, tmp2, numSamples; assigns: pMixBuffer, pInputBuffer, gain, tmp0, tmp1, tmp2, numSamples, MIX; inv: numSamples >= 0 && numSamples <= N0 && pInputBuffer == SRC + (N0 - numSamples) && pMixBuffer == MIX + 1 + 2 * (N0 - numSamples)
//@ inv+ && MIX[0] == OM0 && MIX[513] == OM1
void h_mix(void)
{
    mixer();
    N0 = NUM <= 0 ? 0 : NUM > BUFFER_SIZE_IN_MONO_SAMPLES ? BUFFER_SIZE_IN_MONO_SAMPLES : NUM;
    F.numSamples = NUM; OV = V; OM0 = MIX[0]; OM1 = MIX[513]; OSRC = SRC[SK];
    WT_VoiceGain(&V, &F);
    POST(same_rest() && V.phaseAccum == OV.phaseAccum && V.phaseFrac == OV.phaseFrac && SRC[SK] == OSRC, "neither the voice nor its samples change");
    POST(MIX[0] == OM0 && MIX[513] == OM1, "only the block of the voice is mixed");
    REACH();
}
SPEC_BEGIN
static EAS_I32 part(EAS_I32 x, EAS_I32 g, EAS_I16 pan) { return (((((g >> 16) * x) >> 14) * pan) >> NUM_MIXER_GUARD_BITS); }
SPEC_END
//@ unit e02_gain unwind=6 prop=E02 harness=h_gainv enforce=WT_VoiceGain kind=bounded bound=blocks_of_at_most_one_sample cases=GN:0:1 nochecks=signed-overflow
//@ unit e02_gain2 unwind=6 prop=E02 harness=h_gainv enforce=WT_VoiceGain kind=bounded bound=blocks_of_two_samples cases=GN:2 nochecks=signed-overflow tier=thorough timeout=600
void h_gainv(void)
{
    EAS_I32 step, d; int k;
    mixer(); F.numSamples = GN; OV = V; OM0 = MIX[0]; for (k = 0; k < 4; k++) OM4[k] = MIX[k + 1]; OM1 = MIX[5];
    WT_VoiceGain(&V, &F);
    d = (F.frame.gainTarget - F.prevGain) * (1 << (16 - SYNTH_UPDATE_PERIOD_IN_BITS)); step = d < 0 ? d + 1 : d; d = F.prevGain * 65536;
    for (k = 0; k < 2; k++) {
        d += step;
        POST(MIX[2 * k + 1] == (k < GN ? OM4[2 * k] + part(SRC[k], d, V.gainLeft) : OM4[2 * k]), "the left mix gains the sample, at the ramped gain and the left gain of the voice");
        POST(MIX[2 * k + 2] == (k < GN ? OM4[2 * k + 1] + part(SRC[k], d, V.gainRight) : OM4[2 * k + 1]), "and the right one at the right gain");
    }
    POST(MIX[0] == OM0 && MIX[5] == OM1, "nothing else is mixed");
    REACH();
}
//@ unit e02_process prop=E02 harness=h_process enforce=WT_ProcessVoice replace=WT_Interpolate:c_loop,WT_InterpolateNoLoop:c_once,WT_NoiseGenerator:c_noise,WT_VoiceFilter:c_filt,WT_VoiceGain:c_gainv native=sub inline=0
static EAS_U8 SEQ, C_l, C_o, C_n, C_f, C_g, C_bad;
void c_loop(S_WT_VOICE *v, S_WT_INT_FRAME *f) { if (v != &V || f != &F) C_bad = 1; C_l = ++SEQ; }
void c_once(S_WT_VOICE *v, S_WT_INT_FRAME *f) { if (v != &V || f != &F) C_bad = 1; C_o = ++SEQ; }
void c_noise(S_WT_VOICE *v, S_WT_INT_FRAME *f) { if (v != &V || f != &F) C_bad = 1; C_n = ++SEQ; }
void c_filt(S_FILTER_CONTROL *c, S_WT_INT_FRAME *f) { if (c != &V.filter || f != &F) C_bad = 1; C_f = ++SEQ; }
void c_gainv(S_WT_VOICE *v, S_WT_INT_FRAME *f) { if (v != &V || f != &F) C_bad = 1; C_g = ++SEQ; }
void h_process(void)
{
    INPUT(V); INPUT(F); SEQ = C_l = C_o = C_n = C_f = C_g = C_bad = 0;
    WT_ProcessVoice(&V, &F);
    POST(!C_bad && C_n == (V.loopStart == WT_NOISE_GENERATOR) && C_l == (V.loopStart != WT_NOISE_GENERATOR && V.loopStart != V.loopEnd) && C_o == (V.loopStart != WT_NOISE_GENERATOR && V.loopStart == V.loopEnd), "noise, a looped or a one-shot waveform is rendered, as the voice says");
    POST(C_f == (F.frame.k != 0 ? 2 : 0) && C_g == (F.frame.k != 0 ? 3 : 2), "then filtered if the filter is on, and mixed last");
    REACH();
}
/* the voice filter */
static S_FILTER_CONTROL FC, OFC; static EAS_PCM IO[BUFFER_SIZE_IN_MONO_SAMPLES + 2], OI0, OI1;
//@ unit e02_filter prop=E02 harness=h_filter enforce=WT_VoiceFilter nochecks=signed-overflow
//@ loop[e02_filter] WT_VoiceFilter:0 locals: pAudioBuffer, z1, z2, acc0, acc1, numSamples; assigns: pAudioBuffer, z1, z2, acc0, acc1, numSamples, IO; inv: numSamples >= 0 && numSamples <= N0 && pAudioBuffer == IO + 1 + (N0 - numSamples) && IO[0] == OI0 && IO[257] == OI1
void h_filter(void)
{
    INPUT(FC); INPUT(F); INPUT(NUM); INPUT(IO);
#ifdef VK_NATIVE
    if (vk_random_mode()) NUM = (EAS_I32) (vk_rand() % 300) - 10;
    F.frame.b1 = (EAS_I16) F.frame.b1; F.frame.b2 = (EAS_I16) F.frame.b2; F.frame.k = (EAS_I16) F.frame.k;
#endif
    N0 = NUM <= 0 ? 0 : NUM > BUFFER_SIZE_IN_MONO_SAMPLES ? BUFFER_SIZE_IN_MONO_SAMPLES : NUM;
    F.pAudioBuffer = IO + 1; F.numSamples = NUM; OFC = FC; OI0 = IO[0]; OI1 = IO[257];
    WT_VoiceFilter(&FC, &F);
    POST(IO[0] == OI0 && IO[257] == OI1, "only the block of the voice is filtered");
    if (NUM <= 0) POST(FC.z1 == OFC.z1 && FC.z2 == OFC.z2, "no samples, no change");
    REACH();
}
//@ unit e02_pole prop=E02 harness=h_pole enforce=WT_VoiceFilter kind=bounded bound=blocks_of_one_sample nochecks=signed-overflow
void h_pole(void)
{
    EAS_I32 b1, b2, k, y; EAS_PCM x, i2;
    INPUT(FC); INPUT(F); INPUT(IO); F.pAudioBuffer = IO + 1; F.numSamples = 1; OFC = FC; x = IO[1]; i2 = IO[2];
    F.frame.b1 = (EAS_I16) F.frame.b1; F.frame.b2 = (EAS_I16) F.frame.b2; F.frame.k = (EAS_I16) F.frame.k; b1 = -F.frame.b1; b2 = -F.frame.b2 >> 1; k = F.frame.k >> 1;
    WT_VoiceFilter(&FC, &F);
    y = FC.z1; (void) y;
    POST(IO[1] == (EAS_PCM) ((OFC.z1 * b1 + OFC.z2 * b2 + k * x) >> 14), "a filtered sample is the two-pole recursion of the sample and the last two outputs");
    POST(FC.z1 == IO[1] && FC.z2 == OFC.z1 && IO[2] == i2, "which are remembered");
    REACH();
}
/* the noise generator */
//@ unit e02_noise prop=E02 harness=h_noise enforce=WT_NoiseGenerator nochecks=signed-overflow
//@ loop[e02_noise] WT_NoiseGenerator:0 locals: pOutputBuffer, tmp0, tmp1, nInterpolatedSample, numSamples; assigns: pOutputBuffer, tmp0, tmp1, nInterpolatedSample, numSamples, V.phaseFrac, V.phaseAccum, V.loopEnd, IO; inv: numSamples >= 0 && numSamples <= N0 && pOutputBuffer == IO + 1 + (N0 - numSamples) && IO[0] == OI0 && IO[257] == OI1 && V.phaseFrac <= 32767
void h_noise(void)
{
    INPUT(V); INPUT(F); INPUT(NUM); INPUT(IO); V.phaseFrac &= 32767; V.phaseAccum &= 0xffffffff; V.loopEnd &= 0xffffffff; F.frame.phaseIncrement &= 0x7fffffff;
    N0 = NUM <= 0 ? 0 : NUM > BUFFER_SIZE_IN_MONO_SAMPLES ? BUFFER_SIZE_IN_MONO_SAMPLES : NUM;
#ifdef VK_NATIVE
    if (vk_random_mode()) NUM = (EAS_I32) (vk_rand() % 300) - 10;
#endif
    N0 = NUM <= 0 ? 0 : NUM > BUFFER_SIZE_IN_MONO_SAMPLES ? BUFFER_SIZE_IN_MONO_SAMPLES : NUM;
    F.pAudioBuffer = IO + 1; F.numSamples = NUM; OV = V; OI0 = IO[0]; OI1 = IO[257];
    WT_NoiseGenerator(&V, &F);
    POST(IO[0] == OI0 && IO[257] == OI1, "only the block of the voice is written");
    OV.loopEnd = V.loopEnd;
    POST(same_rest(), "only the generator moves"); POST(V.phaseFrac <= 32767, "the fractional position stays in its unit interval");
    REACH();
}
