/* E08: chorus parameters and delay lines */
//@ file mode=plain timeout=200 solver=cadical unwind=10 fs=20 nlink= nochecks=undefined-shift
#include "kit.h"
#include "eas_data.h"
#include "eas_config.h"
#include "eas_effects.h"
#include "eas_chorus.h"
static EAS_U8 P_n, P_bad; static EAS_I32 P_amount; static void *P_dst; static const void *P_src;
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n) { P_n++; P_dst = d; P_src = s; P_amount = n; return d; }
static EAS_U8 A_fail, A_n, A_freed, A_set; static void *A_ptr;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n);
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p);
EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT m);
void *EAS_HWMemSet(void *s, int c, EAS_I32 n);
#include "eas_chorus.c"
static S_CHORUS_OBJECT C, OC; static S_EAS_DATA ED;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { A_n++; return A_fail & 1 || n != sizeof(C) ? NULL : (void *) &C; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { A_freed++; A_ptr = p; }
EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT m) { A_n++; return A_fail & 1 || m != EAS_MODULE_CHORUS ? NULL : (void *) &C; }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { A_set++; if (s != (void *) &C || c != 0 || n != sizeof(C)) P_bad = 1; memset(&C, 0, sizeof(C)); return s; }
static EAS_I32 A_param, A_value, R_value; static EAS_U16 W;
static EAS_PCM IN[4], OUTB[4], OO[4];

/* the state that initialisation establishes and every operation keeps */
#define RATE_MAX (9 * 50)
#define DEPTH_MAX 132
static int legal(const S_CHORUS_OBJECT *p)
{
    int i;
    for (i = 0; i < CHORUS_MAX_TYPE; i++) {
        const S_CHORUS_PRESET *q = &p->m_sPreset.m_sPreset[i];
        if (q->m_nRate < EAS_CHORUS_RATE_MIN || q->m_nRate > EAS_CHORUS_RATE_MAX || q->m_nDepth < EAS_CHORUS_DEPTH_MIN || q->m_nDepth > EAS_CHORUS_DEPTH_MAX || q->m_nLevel < 0) return 0;
    }
    return p->lfoLPhase >= 0 && p->lfoLPhase < (CHORUS_SHAPE_SIZE << 16) && p->lfoRPhase >= 0 && p->lfoRPhase < (CHORUS_SHAPE_SIZE << 16)
        && p->chorusIndexL >= 0 && p->chorusIndexL < CHORUS_L_SIZE && p->chorusIndexR >= 0 && p->chorusIndexR < CHORUS_R_SIZE
        && p->chorusTapPosition == (CHORUS_DELAY_MS * _OUTPUT_SAMPLE_RATE) / 1000
        && p->m_nRate >= 0 && p->m_nRate <= RATE_MAX && p->m_nDepth >= 0 && p->m_nDepth <= DEPTH_MAX && p->m_nLevel >= 0
        && p->m_nCurrentChorus >= 0 && p->m_nCurrentChorus < CHORUS_MAX_TYPE && p->m_nNextChorus >= 0 && p->m_nNextChorus < CHORUS_MAX_TYPE;
}
/* natively random states are rarely legal: bring them into range */
static void shape(void)
{
    INPUT(C);
#ifdef VK_NATIVE
    if (vk_random_mode()) {
        int i;
        for (i = 0; i < CHORUS_MAX_TYPE; i++) {
            S_CHORUS_PRESET *q = &C.m_sPreset.m_sPreset[i];
            q->m_nRate = 10 + (EAS_U16) q->m_nRate % 41; q->m_nDepth = 15 + (EAS_U16) q->m_nDepth % 46; q->m_nLevel &= 0x7fff;
        }
        C.lfoLPhase &= (CHORUS_SHAPE_SIZE << 16) - 1; C.lfoRPhase &= (CHORUS_SHAPE_SIZE << 16) - 1;
        if (vk_rand() & 1) C.lfoLPhase = (CHORUS_SHAPE_SIZE << 16) - 1 - vk_rand() % 500;
        C.chorusIndexL = (EAS_U16) C.chorusIndexL % CHORUS_L_SIZE; C.chorusIndexR = (EAS_U16) C.chorusIndexR % CHORUS_R_SIZE;
        if (vk_rand() & 1) C.chorusIndexL = CHORUS_L_SIZE - 1 - (vk_rand() & 1);
        if (vk_rand() & 1) C.chorusIndexR = CHORUS_R_SIZE - 1 - (vk_rand() & 1);
        C.chorusTapPosition = (CHORUS_DELAY_MS * _OUTPUT_SAMPLE_RATE) / 1000;
        C.m_nRate = (EAS_U16) C.m_nRate % (RATE_MAX + 1); C.m_nDepth = (EAS_U16) C.m_nDepth % (DEPTH_MAX + 1); C.m_nLevel &= 0x7fff;
        C.m_nCurrentChorus &= 3; C.m_nNextChorus &= 3; C.bypass &= 3;
    }
#endif
    PRE(legal(&C));
}
#define SAME(f) (C.f == OC.f)
static int sound_same(void)
{
    return SAME(lfoLPhase) && SAME(lfoRPhase) && SAME(chorusIndexL) && SAME(chorusIndexR) && SAME(chorusTapPosition)
        && C.chorusDelayL[W] == OC.chorusDelayL[W] && C.chorusDelayR[W] == OC.chorusDelayR[W] && SAME(m_nCurrentChorus);
}
static int presets_same(void) { int i; for (i = 0; i < CHORUS_MAX_TYPE; i++) if (C.m_sPreset.m_sPreset[i].m_nRate != OC.m_sPreset.m_sPreset[i].m_nRate || C.m_sPreset.m_sPreset[i].m_nDepth != OC.m_sPreset.m_sPreset[i].m_nDepth || C.m_sPreset.m_sPreset[i].m_nLevel != OC.m_sPreset.m_sPreset[i].m_nLevel) return 0; return 1; }

//@ unit e08_set prop=E08 harness=h_set enforce=ChorusSetParam
void h_set(void)
{
    EAS_RESULT r; int ok;
    shape(); INPUT(A_param); INPUT(A_value); W = 77;
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_param = vk_rand() % 7 - 1; A_value = (vk_rand() & 1) ? (EAS_I32) (vk_rand() % 70) - 2 : A_value % 70000; }
#endif
    OC = C;
    r = EAS_Chorus.pFSetParam(&C, A_param, A_value);
    ok = A_param == EAS_PARAM_CHORUS_BYPASS
      || (A_param == EAS_PARAM_CHORUS_PRESET && A_value >= EAS_PARAM_CHORUS_PRESET1 && A_value <= EAS_PARAM_CHORUS_PRESET4)
      || (A_param == EAS_PARAM_CHORUS_RATE && A_value >= 10 && A_value <= 50) || (A_param == EAS_PARAM_CHORUS_DEPTH && A_value >= 15 && A_value <= 60)
      || (A_param == EAS_PARAM_CHORUS_LEVEL && A_value >= 0 && A_value <= 32767);
    POST((r == EAS_SUCCESS) == ok, "legal values are accepted, others and unknown parameters are refused");
    POST(legal(&C) && sound_same() && presets_same(), "the delay lines and presets are untouched and the state stays legal");
    POST(C.bypass == (ok && A_param == EAS_PARAM_CHORUS_BYPASS ? (EAS_BOOL) A_value : OC.bypass), "bypass is stored and nothing else changes it");
    POST(C.m_nNextChorus == (ok && A_param == EAS_PARAM_CHORUS_PRESET ? A_value : OC.m_nNextChorus), "the preset is stored and nothing else changes it");
    POST(C.m_nRate == (ok && A_param == EAS_PARAM_CHORUS_RATE ? A_value : OC.m_nRate), "the rate is stored and nothing else changes it");
    POST(C.m_nDepth == (ok && A_param == EAS_PARAM_CHORUS_DEPTH ? A_value : OC.m_nDepth), "the depth is stored and nothing else changes it");
    POST(C.m_nLevel == (ok && A_param == EAS_PARAM_CHORUS_LEVEL ? A_value : OC.m_nLevel), "the level is stored and nothing else changes it");
    REACH();
}
//@ unit e08_readback prop=E08 harness=h_readback enforce=ChorusGetParam
void h_readback(void)
{
    EAS_RESULT r, g; EAS_I32 was;
    shape(); INPUT(A_param); INPUT(A_value); INPUT(R_value); was = R_value;
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_param = vk_rand() % 7 - 1; A_value = (vk_rand() & 1) ? (EAS_I32) (vk_rand() % 70) - 2 : A_value % 70000; }
#endif
    r = EAS_Chorus.pFSetParam(&C, A_param, A_value);
    OC = C;
    g = EAS_Chorus.pFGetParam(&C, A_param, &R_value);
    POST((g == EAS_SUCCESS) == (A_param >= EAS_PARAM_CHORUS_BYPASS && A_param <= EAS_PARAM_CHORUS_LEVEL), "exactly the known parameters can be read");
    if (g != EAS_SUCCESS) POST(R_value == was, "a refused read stores nothing");
    if (r == EAS_SUCCESS && A_param == EAS_PARAM_CHORUS_BYPASS) POST((EAS_BOOL) R_value == (EAS_BOOL) A_value, "bypass reads back");
    else if (r == EAS_SUCCESS && A_param != EAS_PARAM_CHORUS_PRESET) POST(R_value == A_value, "rate, depth and level read back");
    if (A_param == EAS_PARAM_CHORUS_PRESET) POST(R_value == C.m_nCurrentChorus, "the preset reads back once it is in force");
    POST(SAME(bypass) && SAME(m_nNextChorus) && SAME(m_nRate) && SAME(m_nDepth) && SAME(m_nLevel) && SAME(m_nCurrentChorus), "reading changes nothing");
    REACH();
}
//@ unit e08_update prop=E08 harness=h_update enforce=ChorusUpdate
void h_update(void)
{
    const S_CHORUS_PRESET *q;
    shape(); W = 77; OC = C; q = &OC.m_sPreset.m_sPreset[OC.m_nNextChorus];
    ChorusUpdate(&C);
    POST(C.m_nCurrentChorus == OC.m_nNextChorus && SAME(m_nNextChorus) && SAME(bypass), "the requested preset is in force");
    POST(C.m_nLevel == q->m_nLevel && C.m_nRate == q->m_nRate * 9 && C.m_nDepth == ((((EAS_I32) q->m_nDepth * _OUTPUT_SAMPLE_RATE) >> 5) * 105) >> 16, "with its level, rate and depth");
    POST(legal(&C) && presets_same(), "the state stays legal");
    C.m_nCurrentChorus = OC.m_nCurrentChorus; POST(sound_same(), "the delay lines are untouched");
    REACH();
}
//@ unit e08_tap prop=E08 harness=h_tap enforce=WeightedTap
static EAS_I16 A_ref; static EAS_I32 A_pos;
void h_tap(void)
{
    EAS_I32 i, a, b, f; EAS_I16 r;
    INPUT(C); INPUT(A_ref); INPUT(A_pos);
    PRE(A_ref >= 0 && A_ref < CHORUS_L_SIZE && A_pos >= 0 && A_pos < ((EAS_I32) CHORUS_L_SIZE << 16));
    i = A_ref - (A_pos >> 16); if (i < 0) i += CHORUS_L_SIZE; a = C.chorusDelayL[i]; b = C.chorusDelayL[i ? i - 1 : CHORUS_L_SIZE - 1]; f = (A_pos >> 1) & 0x7fff;
    r = WeightedTap(C.chorusDelayL, A_ref, A_pos, CHORUS_L_SIZE);
    POST(r == (EAS_I16) (a + (((b - a) * f) >> 15)), "the tap interpolates the two stored samples at the wanted age, wrapping round the buffer");
    REACH();
}
/* one block of NN samples; the effect works in place (SAME_BUF) or between two buffers */
static void block(int n, int same)
{
    int i;
    shape(); INPUT(IN); INPUT(OUTB); OC = C; P_n = P_bad = 0;
    for (i = 0; i < 4; i++) OO[i] = same ? IN[i] : OUTB[i];
    EAS_Chorus.pfProcess(&C, IN, same ? IN : OUTB, n);
}
#ifndef BUFS
#define BUFS 0
#endif
#ifndef CH
#define CH 0
#endif
//@ unit e08_bypass prop=E08 harness=h_bypass enforce=ChorusProcess cases=BUFS:0:1
void h_bypass(void)
{
    int i; EAS_PCM in0[4];
    INPUT(IN); INPUT(OUTB); W = 77; shape(); P_n = 0;
#ifdef VK_NATIVE
    if (vk_random_mode()) { if (vk_rand() & 1) C.bypass = 1; else C.m_nLevel = 0; }
#endif
    PRE(C.bypass == EAS_TRUE || C.m_nLevel == 0); OC = C;
    for (i = 0; i < 4; i++) { in0[i] = IN[i]; OO[i] = OUTB[i]; }
    EAS_Chorus.pfProcess(&C, IN, BUFS ? OUTB : IN, 2);
    for (i = 0; i < 4; i++) POST(IN[i] == in0[i], "a bypassed chorus leaves its input untouched");
    for (i = 0; i < 4; i++) POST(OUTB[i] == OO[i], "and writes no sample of its own");
    if (BUFS) POST(P_n == 1 && P_dst == (void *) OUTB && P_src == (const void *) IN && P_amount == 8, "the audio is copied to the output");
    else POST(P_n == 0, "in place there is nothing to copy");
    POST(sound_same() && SAME(bypass) && SAME(m_nLevel) && SAME(m_nNextChorus), "the effect state is untouched");
    REACH();
}
#ifndef NN
#define NN 1
#endif
/* what one channel makes of one sample */
SPEC_BEGIN
static EAS_I16 tap_spec(const EAS_I16 *a, EAS_I32 ref, EAS_I32 pos, EAS_I32 n)
{
    EAS_I32 i = ref - (pos >> 16), f = (pos >> 1) & 0x7fff, x, y; if (i < 0) i += n;
    x = a[i]; y = a[i ? i - 1 : n - 1];
    return (EAS_I16) (x + (EAS_I16) (((y - x) * f) >> 15));
}
SPEC_END
//@ unit e08_step prop=E08 harness=h_step enforce=ChorusProcess kind=bounded bound=blocks_of_one_stereo_sample cases=CH:0:1 replace=WeightedTap:c_tap
static EAS_I16 T_lfo[2], T_tap[2]; static EAS_U8 T_n, T_bad; static EAS_I32 T_ph[2], T_pos[2]; static EAS_I16 T_ref[2];
EAS_I16 c_tap(const EAS_I16 *a, EAS_I16 ref, EAS_I32 pos, EAS_I16 n)    /* WeightedTap by its contract, proved in e08_tap */
{
    unsigned c = (T_n >> 1) & 1;
    if (T_n++ & 1) { if (a != (c ? C.chorusDelayR : C.chorusDelayL) || n != CHORUS_L_SIZE || ref < 0 || ref >= n || pos < 0 || pos >= ((EAS_I32) n << 16)) T_bad = 1; T_ref[c] = ref; T_pos[c] = pos; return T_tap[c]; }
    if (a != EAS_chorusShape || ref != 0 || n != CHORUS_SHAPE_SIZE || pos < 0 || pos >= (CHORUS_SHAPE_SIZE << 16)) T_bad = 1;
    T_ph[c] = pos; return T_lfo[c];
}
void h_step(void)
{
    EAS_I32 pos = 0, v, ph; EAS_I16 lfo = 0, tap = 0; EAS_PCM x; EAS_I16 idx; const S_CHORUS_PRESET *q;
    shape(); INPUT(IN); INPUT(W); W %= CHORUS_L_SIZE; INPUT(T_lfo); INPUT(T_tap); T_n = T_bad = 0;
    PRE(C.bypass != EAS_TRUE && C.m_nLevel != 0); C.m_nCurrentChorus = C.m_nNextChorus; OC = C; x = IN[CH];
    PRE(T_lfo[0] >= -32767 && T_lfo[1] >= -32767);    /* no entry of the LFO table is below */
    ph = CH ? OC.lfoRPhase : OC.lfoLPhase; idx = CH ? OC.chorusIndexR : OC.chorusIndexL;
    EAS_Chorus.pfProcess(&C, IN, IN, 1);
    (CH ? OC.chorusDelayR : OC.chorusDelayL)[idx] = x;
#ifdef VK_NATIVE
    lfo = tap_spec(EAS_chorusShape, 0, ph, CHORUS_SHAPE_SIZE);
    pos = OC.m_nDepth * ((EAS_I32) lfo << 1) + ((EAS_I32) OC.chorusTapPosition << 16);
    tap = tap_spec(CH ? OC.chorusDelayR : OC.chorusDelayL, idx, pos, CHORUS_L_SIZE);
#elif !defined(VK_INLINED)
    lfo = T_lfo[CH]; tap = T_tap[CH]; pos = OC.m_nDepth * ((EAS_I32) lfo << 1) + ((EAS_I32) OC.chorusTapPosition << 16);
    POST(T_n == 4 && !T_bad && T_ph[CH] == ph, "the LFO is read at its phase and the delay line once, inside its bounds");
    POST(T_ref[CH] == idx && T_pos[CH] == pos, "the delayed sample is taken depth times LFO around the fixed delay");
#endif
    v = ((tap * (EAS_I32) OC.m_nLevel) >> 15) + x;
#ifndef VK_INLINED   /* with the tap inlined the verifier only decides the indices; the audio is then compared natively */
    POST(IN[CH] == (v > 32767 ? 32767 : v < -32768 ? -32768 : v), "the delayed sample is mixed to the input at the chorus level and saturated");
#endif
    POST((CH ? C.chorusIndexR : C.chorusIndexL) == (idx + 1 == CHORUS_L_SIZE ? 0 : idx + 1), "the write position advances round the buffer");
    POST((CH ? C.lfoRPhase : C.lfoLPhase) == ((ph + OC.m_nRate) & ((CHORUS_SHAPE_SIZE << 16) - 1)), "the LFO advances by its rate");
    POST((CH ? C.chorusDelayR[W] == OC.chorusDelayR[W] : C.chorusDelayL[W] == OC.chorusDelayL[W]), "exactly the new sample enters the delay line");
    POST(legal(&C), "the state stays legal");
    REACH();
}
//@ unit e08_safe prop=E08 harness=h_safe enforce=ChorusProcess kind=bounded bound=blocks_of_up_to_2_stereo_samples cases=NN:0:1:2 timeout=300
void h_safe(void)
{
    block(NN, 0);
    POST(legal(&C) && presets_same() && SAME(bypass) && SAME(m_nNextChorus), "the state stays legal");
    if (OC.bypass != EAS_TRUE && OC.m_nLevel != 0) POST(C.m_nCurrentChorus == OC.m_nNextChorus, "a requested preset is in force once a block has been processed");
    if (NN < 2) POST(OUTB[2] == OO[2] && OUTB[3] == OO[3], "nothing past the block is written");
    REACH();
}
//@ unit e08_init prop=E08 harness=h_init enforce=ChorusInit unwind=900 fs=900
void h_init(void)
{
    EAS_RESULT r; EAS_VOID_PTR inst = NULL; int i;
    INPUT(C); INPUT(A_fail); INPUT(ED.staticMemoryModel); INPUT(W); W %= CHORUS_L_SIZE; A_n = A_set = P_bad = A_freed = 0;
    r = EAS_Chorus.pfInit(&ED, &inst);
    POST((r == EAS_SUCCESS) == !(A_fail & 1) && A_n == 1, "the effect exists unless its memory could not be had");
    POST(inst == (r == EAS_SUCCESS ? (void *) &C : NULL), "its object is handed out only then");
    if (r == EAS_SUCCESS) {
        POST(!P_bad && legal(&C), "it starts in a legal state");
        POST(C.bypass == EAS_TRUE && C.chorusDelayL[W] == 0 && C.chorusDelayR[W] == 0, "bypassed and silent");
        r = EAS_Chorus.pfShutdown(&ED, inst);
        POST(r == EAS_SUCCESS && A_freed == (ED.staticMemoryModel ? 0 : 1) && (!A_freed || A_ptr == (void *) &C), "its memory is given back exactly once");
    }
    REACH();
}
/* a whole render block: the loop contracts cover every number of samples up to the block size */
static EAS_PCM BIN[2 * BUFFER_SIZE_IN_MONO_SAMPLES], BOUT[2 * BUFFER_SIZE_IN_MONO_SAMPLES + 2]; static EAS_U16 N; static EAS_PCM OB[2];
static EAS_I16 T_any;
EAS_I16 c_tapany(const EAS_I16 *a, EAS_I16 ref, EAS_I32 pos, EAS_I16 n)
{
    EAS_I16 r;
    PROVE(a == EAS_chorusShape || a == C.chorusDelayL || a == C.chorusDelayR, "taps read the LFO table or a delay line");
    PROVE(n == (a == EAS_chorusShape ? CHORUS_SHAPE_SIZE : CHORUS_L_SIZE) && ref >= 0 && ref < n && pos >= 0 && pos < ((EAS_I32) n << 16), "a tap is asked for inside its buffer");
    INPUT(T_any); r = T_any;
    if (a == EAS_chorusShape) PRE(r >= -32767);
    return r;
}
//@ unit e08_whole prop=E08 harness=h_whole enforce=ChorusProcess replace=WeightedTap:c_tapany native=sub inline=0
//@ loop[e08_whole] ChorusProcess:0 locals: ; assigns: C.lfoLPhase; inv: C.lfoLPhase >= 0 && C.lfoLPhase < 16777216
//@ loop[e08_whole] ChorusProcess:2 locals: ; assigns: C.lfoRPhase; inv: C.lfoRPhase >= 0 && C.lfoRPhase < 16777216
//@ loop[e08_whole] ChorusProcess:1 locals: ix, nInputSample, pIn, pOut, lfoValueLeft, positionOffsetL, tapL, tempValue, nOutputSample; assigns: ix, nInputSample, pIn, pOut, lfoValueLeft, positionOffsetL, tapL, tempValue, nOutputSample, T_any, C.lfoLPhase, C.chorusIndexL, C.chorusDelayL, __CPROVER_object_upto(BOUT, 1024); inv: ix >= 0 && ix <= N && pIn == BIN + 2 * ix && pOut == BOUT + 2 * ix && C.lfoLPhase >= 0 && C.lfoLPhase < 8388608 && C.chorusIndexL >= 0 && C.chorusIndexL < 882
//@ loop[e08_whole] ChorusProcess:3 locals: ix, nInputSample, pIn, pOut, lfoValueRight, positionOffsetR, tapR, tempValue, nOutputSample; assigns: ix, nInputSample, pIn, pOut, lfoValueRight, positionOffsetR, tapR, tempValue, nOutputSample, T_any, C.lfoRPhase, C.chorusIndexR, C.chorusDelayR, __CPROVER_object_upto(BOUT, 1024); inv: ix >= 0 && ix <= N && pIn == BIN + 2 * ix + 1 && pOut == BOUT + 2 * ix + 1 && C.lfoRPhase >= 0 && C.lfoRPhase < 8388608 && C.chorusIndexR >= 0 && C.chorusIndexR < 882
void h_whole(void)
{
    shape(); INPUT(BIN); INPUT(BOUT); INPUT(N); N %= BUFFER_SIZE_IN_MONO_SAMPLES + 1; OB[0] = BOUT[512]; OB[1] = BOUT[513];
    PRE(C.bypass != EAS_TRUE && C.m_nLevel != 0);
    ChorusProcess(&C, BIN, BOUT, N);
    POST(legal(&C), "the state stays legal");
    POST(BOUT[512] == OB[0] && BOUT[513] == OB[1], "nothing past the block is written");
    REACH();
}
