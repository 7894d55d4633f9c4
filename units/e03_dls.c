/* E03: DLS envelopes */
//@ file mode=plain timeout=200 solver=cadical unwind=4 fs=20 link=eas_flog.c,eas_math.c,eas_pan.c
#include "kit.h"
#define FS 32767
#include "eas_dlssynth.c"
static EAS_I16 CR, CD; static EAS_I32 CRa, CDa; static EAS_U8 CRn, CDn;
EAS_I16 ConvertRate(EAS_I32 t) { CRa = t; CRn++; return CR; }
EAS_I16 ConvertDelay(EAS_I32 t) { CDa = t; CDn++; return CD; }
void WT_ProcessVoice(S_WT_VOICE *v, S_WT_INT_FRAME *f) { }
EAS_BOOL WT_CheckSampleEnd(S_WT_VOICE *v, S_WT_INT_FRAME *f, EAS_BOOL u) { return 0; }
void WT_UpdateLFO(S_LFO_CONTROL *l, EAS_I16 i) { }
void WT_SetFilterCoeffs(S_WT_INT_FRAME *f, EAS_I32 c, EAS_I32 r) { }
static S_SYNTH_VOICE PV; static S_SYNTH_CHANNEL CH; static S_DLS_ENVELOPE E; static EAS_I16 VAL, INC; static EAS_U8 STA;
SPEC_BEGIN
static int rank(unsigned s) { return s; }
SPEC_END
//@ unit e03_dlsenv prop=E03 harness=h_dlsenv enforce=DLS_UpdateEnvelope
void h_dlsenv(void)
{
    EAS_I16 v, i; EAS_U8 s;
    INPUT(PV); INPUT(E); INPUT(VAL); INPUT(INC); INPUT(STA); INPUT(CR); INPUT(CD);
    PV.velocity &= 127; PV.note &= 127; CR &= FS; CD &= FS; VAL &= FS; INC &= FS; E.delayTime &= FS; E.sustainLevel &= FS; STA %= 9; PRE(STA != eEnvelopeStateMuting); CRn = CDn = 0;
    v = VAL; i = INC; s = STA;
    DLS_UpdateEnvelope(&PV, &CH, &E, &VAL, &INC, &STA);
    POST(VAL >= 0 && INC >= 0, "the level stays in range"); POST(STA >= s && STA <= eEnvelopeStateMuted, "stages never go backwards");
    POST(s == eEnvelopeStateRelease || s == eEnvelopeStateMuted || STA <= eEnvelopeStateSustain, "only the release ends in silence");
    if (s == eEnvelopeStateInit && E.delayTime) POST(STA == eEnvelopeStateDelay && VAL == 0 && INC == E.delayTime, "the delay is counted in render periods");
    if (s == eEnvelopeStateDelay && i) POST(STA == s && VAL == v && INC == i - 1, "the delay is counted in render periods");
    if ((s == eEnvelopeStateDelay && !i) || (s == eEnvelopeStateInit && !E.delayTime)) {
        if (E.attackTime != ZERO_TIME_IN_CENTS) POST(STA == eEnvelopeStateAttack && INC == CR && CRa == E.attackTime + ((E.velToAttack * PV.velocity) >> 7) && CRn == 1, "the attack rate follows the velocity");
        else POST(STA > eEnvelopeStateAttack && (STA == eEnvelopeStateHold || STA == eEnvelopeStateDecay || STA == eEnvelopeStateSustain), "an attack of no length is skipped");
    }
    if (s == eEnvelopeStateAttack && v < FS) POST(STA == s && INC == i && VAL == (v + i < FS ? v + i : FS), "the attack rises linearly and saturates at full scale");
    if (s == eEnvelopeStateAttack && v == FS) {
        if (E.holdTime != ZERO_TIME_IN_CENTS) POST(STA == eEnvelopeStateHold && VAL == FS && INC == CD && CDa == E.holdTime + ((E.keyNumToHold * PV.note) >> 7), "the hold time follows the key");
        else POST(STA > eEnvelopeStateHold, "a hold of no length is skipped");
    }
    if (s == eEnvelopeStateHold && i) POST(STA == s && VAL == v && INC == i - 1, "the hold is counted in render periods");
    if (s == eEnvelopeStateHold && !i && E.decayTime != ZERO_TIME_IN_CENTS) POST(STA == eEnvelopeStateDecay && VAL == v && INC == CR && CRa == E.decayTime + ((E.keyNumToDecay * PV.note) >> 7), "the decay rate follows the key");
    if (s == eEnvelopeStateDecay) {
        if (v > E.sustainLevel) POST(STA == s && INC == i && VAL == (v - i > E.sustainLevel ? v - i : E.sustainLevel), "the decay falls to the sustain level");
        else POST(STA == eEnvelopeStateSustain && VAL == E.sustainLevel, "the sustain level is held");
    }
    if (s == eEnvelopeStateSustain) POST(STA == s && VAL == v && INC == i, "the sustain level is held");
    if (s == eEnvelopeStateRelease) POST(INC == i && VAL == (v - i > 0 ? v - i : 0) && STA == (v - i > 0 ? s : eEnvelopeStateMuted), "the release falls to silence");
    if (s == eEnvelopeStateMuted) POST(STA == s && VAL == 0, "silence stays");
    REACH();
}
//@ unit e03_dlsgain prop=E03 harness=h_dlsgain enforce=DLS_UpdateGain nochecks=signed-overflow
static S_WT_VOICE V; static S_DLS_ARTICULATION A; static EAS_I16 GN; static EAS_U8 VEL;
void h_dlsgain(void)
{
    EAS_I32 g;
    INPUT(V); INPUT(A); INPUT(GN); INPUT(VEL); INPUT(CH); VEL &= 127; CH.modWheel &= 127; CH.channelPressure &= 127; CH.staticGain &= FS; V.eg1Value &= FS; V.eg1State %= 9;
    g = DLS_UpdateGain(&V, &A, &CH, GN, VEL);
    POST(g >= 0 && g <= FS, "the gain of a voice stays in 0..full scale"); POST(CH.staticGain > 0 || g == 0, "a silent channel is silent");
    REACH();
}
/* --- pitch and filter of a downloadable voice --- */
//@ assume[e03_dlspitch] LFO depths of downloadable instruments are within 8192 cents
//@ assume[e03_dlsfilter] LFO depths of downloadable instruments are within 8192 cents
//@ unit e03_dlspitch prop=E03 harness=h_dlspitch enforce=DLS_UpdatePhaseInc replace=EAS_Calculate2toX:c_ratio native=sub nochecks=signed-overflow solver=z3
static EAS_I32 X_arg, X_val, P_c, C_cut, C_res; static EAS_U8 X_n, C_n; static S_WT_INT_FRAME F, OF; static S_WT_VOICE OV;
EAS_I32 c_ratio(EAS_I32 c) { X_n++; X_arg = c; return X_val; }
void c_coef(S_WT_INT_FRAME *f, EAS_I32 c, EAS_I32 r) { C_n++; C_cut = c; C_res = r; if (f != &F) C_n = 99; }
SPEC_BEGIN
static int of(int a, int b) { return (a * b) >> 15; }
static int cc(int a, int v) { return (a * v) >> 7; }
SPEC_END
static void mworld(void) { INPUT(V); INPUT(A); INPUT(CH); INPUT(P_c); INPUT(X_val); INPUT(PV); INPUT(F); P_c = (EAS_I16) P_c * 8; CH.modWheel &= 127; CH.channelPressure &= 127; PV.velocity &= 127; PV.note &= 127; X_n = C_n = 0;
    A.modLFOToPitch /= 4; A.modLFOCC1ToPitch /= 4; A.modLFOChanPressToPitch /= 4; A.vibLFOToPitch /= 4; A.vibLFOCC1ToPitch /= 4; A.vibLFOChanPressToPitch /= 4; A.modLFOToFc /= 4; A.modLFOCC1ToFc /= 4; A.modLFOChanPressToFc /= 4;
    OV = V; OF = F; }
void h_dlspitch(void)
{
    EAS_I32 r;
    mworld(); r = DLS_UpdatePhaseInc(&V, &A, &CH, P_c);
    POST(X_n == 1 && r == X_val, "the read increment is the ratio of the pitch");
    POST(X_arg == P_c + of(A.modLFOToPitch + cc(A.modLFOCC1ToPitch, CH.modWheel) + cc(A.modLFOChanPressToPitch, CH.channelPressure), OV.modLFO.lfoValue) + of(A.vibLFOToPitch + cc(A.vibLFOCC1ToPitch, CH.modWheel) + cc(A.vibLFOChanPressToPitch, CH.channelPressure), OV.vibLFO.lfoValue) + of(A.eg2ToPitch, OV.eg2Value), "the pitch adds up note, both LFOs with their controllers, and the envelope");
    REACH();
}
//@ unit e03_dlsfilter prop=E03 harness=h_dlsfilter enforce=DLS_UpdateFilter replace=WT_SetFilterCoeffs:c_coef native=sub nochecks=signed-overflow solver=z3
void h_dlsfilter(void)
{
    long c;
    mworld(); DLS_UpdateFilter(&PV, &V, &F, &CH, &A);
    if (A.filterCutoff == DEFAULT_DLS_FILTER_CUTOFF_FREQUENCY) POST(C_n == 0 && F.frame.k == 0, "an open filter is bypassed");
    else {
        c = A.filterCutoff + of(A.modLFOToFc + cc(A.modLFOCC1ToFc, CH.modWheel) + cc(A.modLFOChanPressToFc, CH.channelPressure), OV.modLFO.lfoValue) + of(OV.eg2Value, A.eg2ToFc) + cc(A.velToFc, PV.velocity) + cc(A.keyNumToFc, PV.note) - FILTER_CUTOFF_FREQ_ADJUST - A5_PITCH_OFFSET_IN_CENTS;
        c = c > FILTER_CUTOFF_MAX_PITCH_CENTS ? FILTER_CUTOFF_MAX_PITCH_CENTS : c < FILTER_CUTOFF_MIN_PITCH_CENTS ? FILTER_CUTOFF_MIN_PITCH_CENTS : c;
        POST(C_n == 1 && C_cut == c && C_res == (A.filterQandFlags & FILTER_Q_MASK), "the cutoff follows LFO, envelope, velocity and key within its limits");
    }
    REACH();
}
