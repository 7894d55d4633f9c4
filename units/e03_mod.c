/* E03: the pitch, gain and filter of a period are the ones the envelopes, the LFO and the controllers give */
//@ file prop=E03 mode=plain timeout=300 solver=cadical unwind=4 fs=20 link=eas_flog.c nlink=eas_flog.c,eas_dlssynth.c nochecks=signed-overflow
//@ assume products of envelope, LFO and articulation values (16 bit each) do not overflow 64 bits (signed-overflow checks off: results are compared bit-precisely)
//@ assume[e03_gain] tremolo amplifies less than twice
#include "kit.h"
#include "eas_wtsynth.c"
static EAS_I32 X_arg, X_val; static EAS_U8 X_n;
EAS_I32 EAS_Calculate2toX(EAS_I32 c) { X_n++; X_arg = c; return X_val; }
void EAS_CalcPanControl(EAS_INT p, EAS_I16 *l, EAS_I16 *r) { *l = *r = 0; }
EAS_I16 ConvertRate(EAS_I32 t) { return 0; }
EAS_I16 ConvertDelay(EAS_I32 t) { return 0; }
void WT_ProcessVoice(S_WT_VOICE *v, S_WT_INT_FRAME *f) { }
EAS_U16 EAS_LogToLinear16(EAS_I32 n) { return 0; }
static S_WT_VOICE V, OV; static S_SYNTH_VOICE PV; static S_ARTICULATION A; static S_SYNTH_CHANNEL CH; static EAS_I32 P_c; static EAS_I16 GN; static S_WT_INT_FRAME F, OF; static EAS_U8 RES;
SPEC_BEGIN
/* fraction of full scale */
static int of(int a, int b) { return (a * b) >> 15; }
SPEC_END
static void world(void)
{
    INPUT(V); INPUT(PV); INPUT(A); INPUT(CH); INPUT(P_c); INPUT(GN); INPUT(F); INPUT(X_val); X_n = 0;
    CH.modWheel &= 127; CH.channelPressure &= 127; PV.velocity &= 127; P_c = (EAS_I16) P_c * 8; CH.staticGain &= 32767; V.eg1Value &= 32767; V.eg2Value &= 32767; PRE(V.modLFO.lfoValue > -32768); X_val &= 0x7fffff; OV = V; OF = F;
}
//@ unit e03_pitch harness=h_pitch enforce=WT_UpdatePhaseInc
void h_pitch(void)
{
    EAS_I32 r; long depth;
    world(); r = WT_UpdatePhaseInc(&V, &A, &CH, P_c);
    depth = of(DEFAULT_LFO_MOD_WHEEL_TO_PITCH_CENTS, (long) CH.modWheel * 256) + of(DEFAULT_LFO_CHANNEL_PRESSURE_TO_PITCH_CENTS, (long) CH.channelPressure * 256);
    POST(X_n == 1 && r == X_val, "the read increment is the ratio of the pitch");
    POST(X_arg == P_c + of(OV.modLFO.lfoValue, depth) + of(OV.eg2Value, A.eg2ToPitch) + of(OV.modLFO.lfoValue, A.lfoToPitch), "the pitch adds up note, controllers, envelope and LFO");
    REACH();
}
//@ unit e03_gain harness=h_gain enforce=WT_UpdateGain
void h_gain(void)
{
    EAS_I32 r; long v, t;
    world(); X_val &= 0xffff; r = WT_UpdateGain(&PV, &V, &A, &CH, GN);
    POST(X_n == 1 && X_arg == of(of(OV.modLFO.lfoValue, A.lfoToGain), LFO_GAIN_TO_CENTS), "tremolo is the ratio of the LFO depth");
    v = of(PV.velocity * 256, PV.velocity * 256);
    t = of(of(of(of(v, GN), CH.staticGain), X_val), OV.eg1Value);
    POST(r == (EAS_I16) t, "the gain is velocity squared times region, channel, tremolo and envelope");
    REACH();
}
static EAS_I32 C_cut, C_res; static EAS_U8 C_n;
void c_coeffs(S_WT_INT_FRAME *f, EAS_I32 cutoff, EAS_I32 res) { C_n++; C_cut = cutoff; C_res = res; if (f != &F) C_n = 99; }
//@ unit e03_filter harness=h_filter enforce=WT_UpdateFilter replace=WT_SetFilterCoeffs:c_coeffs native=sub
void h_filter(void)
{
    long c;
    world(); C_n = 0; WT_UpdateFilter(&V, &F, &A);
    if (A.filterCutoff == DEFAULT_EAS_FILTER_CUTOFF_FREQUENCY) POST(C_n == 0 && F.frame.k == 0, "an open filter is bypassed");
    else {
        c = of(OV.eg2Value, A.eg2ToFc) + A.filterCutoff - FILTER_CUTOFF_FREQ_ADJUST - A5_PITCH_OFFSET_IN_CENTS;
        c = c > FILTER_CUTOFF_MAX_PITCH_CENTS ? FILTER_CUTOFF_MAX_PITCH_CENTS : c < FILTER_CUTOFF_MIN_PITCH_CENTS ? FILTER_CUTOFF_MIN_PITCH_CENTS : c;
        POST(C_n == 1 && C_cut == c && C_res == A.filterQ, "the cutoff follows the modulation envelope within its limits");
    }
    REACH();
}
//@ unit e03_coef harness=h_coef enforce=WT_SetFilterCoeffs
static EAS_I32 P_cut;
void h_coef(void)
{
    INPUT(P_cut); INPUT(RES); PRE(RES <= 30 && P_cut >= FILTER_CUTOFF_MIN_PITCH_CENTS && P_cut <= FILTER_CUTOFF_MAX_PITCH_CENTS); world();
    WT_SetFilterCoeffs(&F, P_cut, RES);
    POST(X_n == 1 && X_arg == P_cut, "the coefficients follow the cutoff");
    POST(F.frame.phaseIncrement == OF.frame.phaseIncrement && F.frame.gainTarget == OF.frame.gainTarget && F.prevGain == OF.prevGain && F.numSamples == OF.numSamples && F.pAudioBuffer == OF.pAudioBuffer && F.pMixBuffer == OF.pMixBuffer, "nothing but the coefficients changes");
    REACH();
}
