/* D01: conversion of downloadable-instrument values; D03: sharing of collections */
//@ file mode=plain timeout=150 solver=cadical unwind=60 fs=70 link=eas_math.c nlink=eas_math.c
#include "kit.h"
#include "eas_data.h"
#include "eas_host.h"
#include "eas_report.h"
void EAS_ReportEx(int s, unsigned long h, int r, ...) { }
#include "eas_mdls.c"
/* the file: a queue of numbers, with a failure at an arbitrary place */
#define QN 16
static EAS_U32 Q[QN]; static EAS_U8 Q_n, Q_fail, Q_bad; static EAS_I32 Q_seek[4]; static EAS_U8 Q_seeks;
static EAS_RESULT next(EAS_U32 *v) { if (Q_n == Q_fail || Q_n >= QN) return EAS_EOF; *v = Q[Q_n++]; return EAS_SUCCESS; }
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p) { EAS_U32 v; EAS_RESULT r = next(&v); if (r == EAS_SUCCESS) *(EAS_U8 *) p = (EAS_U8) v; return r; }
EAS_RESULT EAS_HWGetWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m) { EAS_U32 v; EAS_RESULT r = next(&v); if (m) Q_bad = 1; if (r == EAS_SUCCESS) *(EAS_U16 *) p = (EAS_U16) v; return r; }
EAS_RESULT EAS_HWGetDWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m) { EAS_U32 v; EAS_RESULT r = next(&v); if (m) Q_bad = 1; if (r == EAS_SUCCESS) *(EAS_U32 *) p = v & 0xffffffff; return r; }
EAS_RESULT EAS_HWReadFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *b, EAS_I32 n, EAS_I32 *got) { Q_bad = 1; return EAS_EOF; }
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 p) { if (Q_seeks < 4) Q_seek[Q_seeks] = p; Q_seeks++; return EAS_SUCCESS; }
EAS_RESULT EAS_HWFileSeekOfs(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 p) { return EAS_SUCCESS; }
EAS_RESULT EAS_HWDupHandle(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_FILE_HANDLE *p) { return EAS_ERROR_MAX_FILES_OPEN; }
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f) { return EAS_SUCCESS; }
static EAS_U8 M_freed; static void *M_what;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { return NULL; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { M_freed++; M_what = p; }
EAS_I32 EAS_HWMemCmp(const void *a, const void *b, EAS_I32 n) { return 1; }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { return s; }
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n) { return d; }

static EAS_I16 X, Y; static EAS_I32 X2; static S_DLS_ART_VALUES V; static S_DLS_ARTICULATION ART[2]; static S_DLS DLS; static SDLS_SYNTHESIZER_DATA DD;
#define FULL 32767
SPEC_BEGIN
static EAS_I32 clip(EAS_I32 x, EAS_I32 lo, EAS_I32 hi) { return x < lo ? lo : x > hi ? hi : x; }
static EAS_I16 sustain_law(EAS_I16 x) { return (EAS_I16) (x <= 0 ? 0 : clip((x * (EAS_I32) 1073709) >> 15, 0, FULL)); }    /* 0.1 % steps: 1000 is full scale */
static EAS_I16 delay_law(EAS_I16 x) { return (EAS_I16) (x == -32768 ? 0 : clip(EAS_LogToLinear16(((((EAS_I32) x + 8914) * 27962) >> 15) - 15360), 0, FULL)); }
static EAS_I16 rate_law(EAS_I16 x) { return (EAS_I16) (x == -32768 ? FULL : clip(EAS_Calculate2toX(-8914 - (EAS_I32) x), 0, FULL)); }
static EAS_I16 lfo_law(EAS_I16 x) { return (EAS_I16) EAS_Calculate2toX(clip(x, -7624, 1549) - 5277); }
static EAS_I8 pan_law(EAS_I16 x) { return (EAS_I8) clip((x * (EAS_I32) 4129) >> 15, -63, 63); }
static EAS_U8 q_law(EAS_I16 x) { return (EAS_U8) (x <= 0 ? 0 : clip((4369 * (EAS_I32) x + 0x4000) >> 15, 0, 30)); }
SPEC_END

//@ unit d01_sustain prop=D01 harness=h_sustain enforce=ConvertSustain
void h_sustain(void)
{
    EAS_I16 a, b;
    INPUT(X); INPUT(Y); PRE(X <= Y);
    a = ConvertSustain(X); b = ConvertSustain(Y);
    POST(a >= 0 && b <= FULL && a <= b, "sustain levels stay in 0..full scale and grow with the file value");
    POST(X != 0 || a == 0, "a sustain level of zero is silent"); POST(X != 1000 || a >= FULL - 32, "100 % is full scale");
    POST(a == sustain_law(X), "a sustain level is proportional to its percentage");
    REACH();
}
//@ unit d01_delay prop=D01 harness=h_delay enforce=ConvertDelay
void h_delay(void)
{
    EAS_I16 r;
    INPUT(X); r = ConvertDelay(X);
    POST(r >= 0 && (X != -32768 || r == 0), "a delay is a frame count of 0..32767, and no delay is none");
    POST(r == delay_law(X), "a delay is its time divided by the frame period");
    REACH();
}
//@ unit d01_rate prop=D01 harness=h_rate enforce=ConvertRate
void h_rate(void)
{
    EAS_I16 r;
    INPUT(X); r = ConvertRate(X);
    POST(r >= 0 && (X != -32768 || r == FULL), "a rate stays in 0..full scale, and no time is the full rate");
    POST(r == rate_law(X), "a rate is the frame period divided by the time");
    REACH();
}
//@ unit d01_lfo prop=D01 harness=h_lfo enforce=ConvertLFOPhaseIncrement
void h_lfo(void)
{
    EAS_I16 r;
    INPUT(X); r = ConvertLFOPhaseIncrement(X);
    POST(r >= 0, "an LFO never runs backwards");
    POST(r == lfo_law(X), "an LFO rate is the frequency limited to 0.1..20 Hz times the frame period");
    REACH();
}
//@ unit d01_pan prop=D01 harness=h_pan enforce=ConvertPan
void h_pan(void)
{
    EAS_I8 a, b;
    INPUT(X); INPUT(Y); PRE(X <= Y);
    a = ConvertPan(X); b = ConvertPan(Y);
    POST(a >= -63 && b <= 63 && a <= b, "a pan stays in -63..63 and follows the file value");
    POST(X != 0 || a == 0, "zero is the centre"); POST(X > -508 || a == -63, "-50 % is hard left"); POST(Y < 508 || b == 63, "50 % is hard right");
    POST(a == pan_law(X), "a pan is proportional to the file value");
    REACH();
}
//@ unit d01_q prop=D01 harness=h_q enforce=ConvertQ
void h_q(void)
{
    EAS_U8 a, b;
    INPUT(X); INPUT(Y); PRE(X <= Y);
    a = ConvertQ(X); b = ConvertQ(Y);
    POST(b <= 30 && a <= b && (X > 0 || a == 0), "a resonance is an index 0..30 that grows with the file value");
    POST(a == q_law(X), "a resonance counts 0.75 dB steps");
    REACH();
}
//@ unit d01_art prop=D01 harness=h_art enforce=Convert_art timeout=300
#define AS(f, p) (ART[1].f == V.values[p])
static int eg_ok(const S_DLS_ENVELOPE *e, int b)   /* b: the DELAY parameter of this envelope */
{
    return e->attackTime == V.values[b + 1] && e->holdTime == V.values[b + 2] && e->decayTime == V.values[b + 3];
}
void h_art(void)
{
    INPUT(V); INPUT(ART); DLS.pDLSArticulations = ART; DD.pDLS = &DLS; S_DLS_ARTICULATION o = ART[0];
    Convert_art(&DD, &V, 1);
    POST(ART[1].modLFO.lfoFreq == lfo_law(V.values[PARAM_MOD_LFO_FREQ]) && ART[1].vibLFO.lfoFreq == lfo_law(V.values[PARAM_VIB_LFO_FREQ]), "LFO frequencies");
    POST(ART[1].modLFO.lfoDelay == -delay_law(V.values[PARAM_MOD_LFO_DELAY]) && ART[1].vibLFO.lfoDelay == -delay_law(V.values[PARAM_VIB_LFO_DELAY]), "LFO delays");
    POST(eg_ok(&ART[1].eg1, PARAM_VOL_EG_DELAY) && ART[1].eg1.delayTime == delay_law(V.values[PARAM_VOL_EG_DELAY]), "volume envelope times");
    POST(ART[1].eg1.sustainLevel == sustain_law(V.values[PARAM_VOL_EG_SUSTAIN]) && ART[1].eg1.releaseTime == rate_law(V.values[PARAM_VOL_EG_RELEASE]) && ART[1].eg1ShutdownTime == rate_law(V.values[PARAM_VOL_EG_SHUTDOWN]), "volume envelope sustain, release and shutdown");
    POST(AS(eg1.velToAttack, PARAM_VOL_EG_VEL_TO_ATTACK) && AS(eg1.keyNumToDecay, PARAM_VOL_EG_KEY_TO_DECAY) && AS(eg1.keyNumToHold, PARAM_VOL_EG_KEY_TO_HOLD), "volume envelope scaling");
    POST(eg_ok(&ART[1].eg2, PARAM_MOD_EG_DELAY) && ART[1].eg2.delayTime == delay_law(V.values[PARAM_MOD_EG_DELAY]), "modulation envelope times");
    POST(ART[1].eg2.sustainLevel == sustain_law(V.values[PARAM_MOD_EG_SUSTAIN]) && ART[1].eg2.releaseTime == rate_law(V.values[PARAM_MOD_EG_RELEASE]), "modulation envelope sustain and release");
    POST(AS(eg2.velToAttack, PARAM_MOD_EG_VEL_TO_ATTACK) && AS(eg2.keyNumToDecay, PARAM_MOD_EG_KEY_TO_DECAY) && AS(eg2.keyNumToHold, PARAM_MOD_EG_KEY_TO_HOLD), "modulation envelope scaling");
    POST(AS(filterCutoff, PARAM_INITIAL_FC) && AS(modLFOToFc, PARAM_MOD_LFO_TO_FC) && AS(modLFOCC1ToFc, PARAM_MOD_LFO_CC1_TO_FC) && AS(modLFOChanPressToFc, PARAM_MOD_LFO_CHAN_PRESS_TO_FC) && AS(eg2ToFc, PARAM_MOD_EG_TO_FC) && AS(velToFc, PARAM_VEL_TO_FC) && AS(keyNumToFc, PARAM_KEYNUM_TO_FC), "filter parameters");
    POST((ART[1].filterQandFlags & FILTER_Q_MASK) == q_law(V.values[PARAM_INITIAL_Q]) && !(ART[1].filterQandFlags & FLAG_DLS_VELOCITY_SENSITIVE) == !V.values[PARAM_VEL_TO_GAIN], "resonance and velocity sensitivity");
    POST(AS(modLFOToGain, PARAM_MOD_LFO_TO_GAIN) && AS(modLFOCC1ToGain, PARAM_MOD_LFO_CC1_TO_GAIN) && AS(modLFOChanPressToGain, PARAM_MOD_LFO_CHAN_PRESS_TO_GAIN), "gain modulation");
    POST(AS(tuning, PARAM_TUNING) && AS(keyNumToPitch, PARAM_KEYNUM_TO_PITCH) && AS(vibLFOToPitch, PARAM_VIB_LFO_TO_PITCH) && AS(vibLFOCC1ToPitch, PARAM_VIB_LFO_CC1_TO_PITCH) && AS(vibLFOChanPressToPitch, PARAM_VIB_LFO_CHAN_PRESS_TO_PITCH), "pitch parameters");
    POST(AS(modLFOToPitch, PARAM_MOD_LFO_TO_PITCH) && AS(modLFOCC1ToPitch, PARAM_MOD_LFO_CC1_TO_PITCH) && AS(modLFOChanPressToPitch, PARAM_MOD_LFO_CHAN_PRESS_TO_PITCH) && AS(eg2ToPitch, PARAM_MOD_EG_TO_PITCH), "pitch modulation");
    POST(ART[1].pan == pan_law(V.values[PARAM_DEFAULT_PAN]), "pan");
    POST(ART[0].tuning == o.tuning && ART[0].pan == o.pan && ART[0].eg1.sustainLevel == o.eg1.sustainLevel && ART[0].modLFO.lfoFreq == o.modLFO.lfoFreq, "no other articulation changes");
    REACH();
}
//@ unit d01_rgn prop=D01 harness=h_rgn enforce=Convert_rgn replace=ConvertSampleRate:c_rate native=sub
static S_DLS_REGION RG[2]; static S_WSMP_DATA WS; static EAS_U16 A1, A2; static EAS_I16 CR; static EAS_U32 CR_arg;
EAS_I16 c_rate(EAS_U32 r) { CR_arg = r; return CR; }
void h_rgn(void)
{
    INPUT(RG); INPUT(WS); INPUT(A1); INPUT(A2); INPUT(CR); DLS.pDLSRegions = RG; DD.pDLS = &DLS; S_DLS_REGION o0 = RG[0], o = RG[1];
    Convert_rgn(&DD, 1, A1, A2, &WS);
    POST(RG[1].wtRegion.artIndex == A1 && RG[1].wtRegion.waveIndex == A2, "a region refers to its articulation and wave");
    POST(RG[1].wtRegion.gain == (EAS_I16) (WS.gain >> 16) && RG[1].wtRegion.loopStart == WS.loopStart && RG[1].wtRegion.loopEnd == WS.loopStart + WS.loopLength, "gain and loop are those of the wave");
#ifndef VK_INLINED
    POST(RG[1].wtRegion.tuning == (EAS_I16) (WS.fineTune - WS.unityNote * 100 + CR) && CR_arg == WS.sampleRate, "the tuning makes the unity note of the wave sound at its own pitch");
#endif
    POST(RG[1].wtRegion.region.keyGroupAndFlags == (o.wtRegion.region.keyGroupAndFlags | (WS.loopLength ? REGION_FLAG_IS_LOOPED : 0)), "a region is looped exactly when its loop has a length");
    POST(RG[1].wtRegion.region.rangeLow == o.wtRegion.region.rangeLow && RG[1].wtRegion.region.rangeHigh == o.wtRegion.region.rangeHigh && RG[1].velLow == o.velLow && RG[1].velHigh == o.velHigh, "its ranges are untouched");
    POST(RG[0].wtRegion.artIndex == o0.wtRegion.artIndex && RG[0].wtRegion.loopEnd == o0.wtRegion.loopEnd && RG[0].wtRegion.tuning == o0.wtRegion.tuning, "no other region changes");
    REACH();
}
/* which parameter a connection block addresses (DLS level 2, table of supported connections) */
#define S_NONE 0
#define S_LFO 1
#define S_VEL 2
#define S_KEY 3
#define S_EG2 5
#define S_CP 8
#define S_VIB 9
#define S_CC1 0x81
static int conn(EAS_U16 s, EAS_U16 c, EAS_U16 d)
{
    if (c == S_NONE && s == S_NONE) switch (d) {
        case 0x104: return PARAM_MOD_LFO_FREQ; case 0x105: return PARAM_MOD_LFO_DELAY; case 0x114: return PARAM_VIB_LFO_FREQ; case 0x115: return PARAM_VIB_LFO_DELAY;
        case 0x20b: return PARAM_VOL_EG_DELAY; case 0x206: return PARAM_VOL_EG_ATTACK; case 0x20c: return PARAM_VOL_EG_HOLD; case 0x207: return PARAM_VOL_EG_DECAY; case 0x20a: return PARAM_VOL_EG_SUSTAIN; case 0x209: return PARAM_VOL_EG_RELEASE; case 0x20d: return PARAM_VOL_EG_SHUTDOWN;
        case 0x30f: return PARAM_MOD_EG_DELAY; case 0x30a: return PARAM_MOD_EG_ATTACK; case 0x310: return PARAM_MOD_EG_HOLD; case 0x30b: return PARAM_MOD_EG_DECAY; case 0x30e: return PARAM_MOD_EG_SUSTAIN; case 0x30d: return PARAM_MOD_EG_RELEASE;
        case 0x500: return PARAM_INITIAL_FC; case 0x501: return PARAM_INITIAL_Q; case 3: return PARAM_TUNING; case 4: return PARAM_DEFAULT_PAN; case 0x81: return PARAM_DEFAULT_REVERB_SEND; case 0x80: return PARAM_DEFAULT_CHORUS_SEND;
        default: return 0;
    }
    if (c == S_NONE && s == S_VEL) return d == 0x206 ? PARAM_VOL_EG_VEL_TO_ATTACK : d == 0x30a ? PARAM_MOD_EG_VEL_TO_ATTACK : d == 0x500 ? PARAM_VEL_TO_FC : d == 1 ? PARAM_VEL_TO_GAIN : 0;
    if (c == S_NONE && s == S_KEY) return d == 0x207 ? PARAM_VOL_EG_KEY_TO_DECAY : d == 0x20c ? PARAM_VOL_EG_KEY_TO_HOLD : d == 0x30b ? PARAM_MOD_EG_KEY_TO_DECAY : d == 0x310 ? PARAM_MOD_EG_KEY_TO_HOLD : d == 0x500 ? PARAM_KEYNUM_TO_FC : d == 3 ? PARAM_KEYNUM_TO_PITCH : 0;
    if (s == S_LFO && d == 0x500) return c == S_NONE ? PARAM_MOD_LFO_TO_FC : c == S_CC1 ? PARAM_MOD_LFO_CC1_TO_FC : c == S_CP ? PARAM_MOD_LFO_CHAN_PRESS_TO_FC : 0;
    if (s == S_LFO && d == 1) return c == S_NONE ? PARAM_MOD_LFO_TO_GAIN : c == S_CC1 ? PARAM_MOD_LFO_CC1_TO_GAIN : c == S_CP ? PARAM_MOD_LFO_CHAN_PRESS_TO_GAIN : 0;
    if (s == S_LFO && d == 3) return c == S_NONE ? PARAM_MOD_LFO_TO_PITCH : c == S_CC1 ? PARAM_MOD_LFO_CC1_TO_PITCH : c == S_CP ? PARAM_MOD_LFO_CHAN_PRESS_TO_PITCH : 0;
    if (s == S_VIB && d == 3) return c == S_NONE ? PARAM_VIB_LFO_TO_PITCH : c == S_CC1 ? PARAM_VIB_LFO_CC1_TO_PITCH : c == S_CP ? PARAM_VIB_LFO_CHAN_PRESS_TO_PITCH : 0;
    if (s == S_EG2 && c == S_NONE) return d == 0x500 ? PARAM_MOD_EG_TO_FC : d == 3 ? PARAM_MOD_EG_TO_PITCH : 0;
    if (s == 0xdb && c == S_NONE && d == 0x81) return PARAM_MIDI_CC91_TO_REVERB_SEND;
    if (s == 0xdd && c == S_NONE && d == 0x80) return PARAM_MIDI_CC93_TO_CHORUS_SEND;
    return 0;
}
//@ unit d01_conn prop=D01 harness=h_conn enforce=Parse_art cases=QF:0:1:2:3:4:5:6:99 kind=bounded bound=articulation_chunks_of_one_connection
static EAS_U16 W;
#ifndef QF
#define QF 99
#endif
void h_conn(void)
{
    EAS_RESULT r; int p; S_DLS_ART_VALUES o;
    INPUT(Q); INPUT(V); INPUT(X2); INPUT(W); Q_fail = QF; PRE(W < PARAM_TABLE_SIZE); Q_n = Q_bad = Q_seeks = 0;
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U16 ds[] = { 0x104, 0x105, 0x114, 0x115, 0x20b, 0x206, 0x20c, 0x207, 0x20a, 0x209, 0x20d, 0x30f, 0x30a, 0x310, 0x30b, 0x30e, 0x30d, 0x500, 0x501, 3, 4, 0x81, 0x80, 1 }; static const EAS_U16 ss[] = { 0, 1, 2, 3, 5, 9, 0xdb, 0xdd }, cs[] = { 0, 0, 0x81, 8 };
        Q[2] = ss[vk_rand() % 8]; Q[3] = cs[vk_rand() % 4]; Q[4] = ds[vk_rand() % 24]; W = conn((EAS_U16) Q[2], (EAS_U16) Q[3], (EAS_U16) Q[4]); X2 = vk_rand() & 0xffff; }
#endif
    PRE(X2 >= 0 && X2 < 0x7fffffff); Q[1] = 1; o = V;
    p = conn((EAS_U16) Q[2], (EAS_U16) Q[3], (EAS_U16) Q[4]);
    r = Parse_art(&DD, X2, &V);
    POST(!Q_bad && Q_seek[0] == X2 && (Q_seeks < 2 || Q_seek[1] == X2 + (EAS_I32) (Q[0] & 0xffffffff)), "the header is read at its place and skipped by its size");
    POST((r == EAS_SUCCESS) == (Q_fail >= 7), "a short chunk is an error");
    if (r == EAS_SUCCESS && p) POST(V.values[p] == (EAS_I16) (Q[6] >> 16) && V.values[PARAM_MODIFIED] == EAS_TRUE, "a connection sets its parameter to the integer part of its scale");
    if (!(r == EAS_SUCCESS && p && (W == p || W == PARAM_MODIFIED))) POST(V.values[W] == o.values[W], "and no other parameter");
    REACH();
}
//@ unit d03_ref prop=D03 harness=h_ref enforce=DLSCleanup
void h_ref(void)
{
    EAS_RESULT r; S_DLS o; int n;
    INPUT(DLS); o = DLS; M_freed = 0;
    r = DLSCleanup(NULL, &DLS); n = o.refCount;
    POST(r == EAS_SUCCESS && DLS.refCount == (n ? n - 1 : 0), "letting go counts one user less, and never below none");
    POST(M_freed == (n == 1) && (!M_freed || M_what == (void *) &DLS), "the memory is given back exactly when the last user lets go");
    r = DLSCleanup(NULL, NULL);
    POST(r == EAS_SUCCESS && M_freed == (n == 1), "letting go of nothing is harmless");
    REACH();
}
//@ unit d03_add prop=D03 harness=h_add enforce=DLSAddRef
void h_add(void)
{
    S_DLS o;
    INPUT(DLS); PRE(DLS.refCount < 255); o = DLS; M_freed = 0;
    DLSAddRef(&DLS);
    POST(DLS.refCount == o.refCount + 1 && M_freed == 0, "one user more");
    POST(DLS.pDLSRegions == o.pDLSRegions && DLS.pDLSSamples == o.pDLSSamples && DLS.numDLSPrograms == o.numDLSPrograms, "the collection itself does not change");
    DLSCleanup(NULL, &DLS);
    POST(DLS.refCount == o.refCount && M_freed == (o.refCount == 0), "taking and letting go cancel");
    DLSAddRef(NULL);
    REACH();
}
