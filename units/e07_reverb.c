/* E07: reverb parameters and delay line */
//@ file mode=plain timeout=200 solver=cadical unwind=10 fs=20 nlink= nochecks=undefined-shift
#include "kit.h"
#include "eas_data.h"
#include "eas_config.h"
#include "eas_effects.h"
#include "eas_reverb.h"
static EAS_U8 P_n, P_bad; static EAS_I32 P_amount; static void *P_dst; static const void *P_src;
void *EAS_HWMemCpy(void *d, const void *s, EAS_I32 n) { P_n++; P_dst = d; P_src = s; P_amount = n; return d; }
static EAS_U8 A_fail, A_n, A_freed; static void *A_ptr;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n);
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p);
EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT m);
void *EAS_HWMemSet(void *s, int c, EAS_I32 n);
#include "eas_reverb.c"
static S_REVERB_OBJECT R, OR; static S_EAS_DATA ED;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { A_n++; return A_fail & 1 || n != sizeof(R) ? NULL : (void *) &R; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { A_freed++; A_ptr = p; }
EAS_VOID_PTR EAS_CMEnumFXData(EAS_INT m) { A_n++; return A_fail & 1 || m != EAS_MODULE_REVERB ? NULL : (void *) &R; }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { if (s != (void *) &R || c != 0 || n != sizeof(R)) P_bad = 1; memset(&R, 0, sizeof(R)); return s; }
static EAS_I32 A_param, A_value, R_value; static EAS_U16 W, A_exc; static EAS_I16 A_noise;
static EAS_PCM IN[4], OUTB[4];
#define SAME(f) (R.f == OR.f)
#ifndef ROOM
#define ROOM 0
#endif
#ifndef BUFS
#define BUFS 0
#endif
#ifndef BASE
#define BASE 0
#endif
#ifndef NN
#define NN 1
#endif
/* the documented preset table: what each room sets (times in 1/65536 s) */
static const EAS_I16 SPEC[4][11] = {   /* lpfFbk lpfFwd early wet dry excursion xfade ap0gain ap0out ap1gain ap1out */
    { 8307, 14768, 0, 27690, 32767, 127, 6388, 15691, 711, 17999, 1113 },
    { 6461, 14307, 0, 27690, 32767, 127, 6391, 15230, 708, 9692, 1113 },
    { 5077, 12922, 0, 24460, 32767, 127, 6449, 15691, 774, 15691, 1113 },
    { 5077, 11076, 0, 23075, 32767, 127, 6470, 14768, 792, 15783, 1113 } };
static int room_is(const S_REVERB_OBJECT *p, int k)
{
    const S_REVERB_PRESET *q = &p->m_sPreset.m_sPreset[k]; const EAS_I16 *t = SPEC[k];
    return q->m_nLpfFbk == t[0] && q->m_nLpfFwd == t[1] && q->m_nEarly == t[2] && q->m_nWet == t[3] && q->m_nDry == t[4] && q->m_nMaxExcursion == t[5]
        && q->m_nXfadeInterval == t[6] && q->m_nAp0_ApGain == t[7] && q->m_nAp0_ApOut == t[8] && q->m_nAp1_ApGain == t[9] && q->m_nAp1_ApOut == t[10];
}
static int in(EAS_I32 x, EAS_I32 lo, EAS_I32 hi) { return x >= lo && x <= hi; }
/* what initialisation establishes and every operation keeps: heads of the four sections, taps inside their sections */
static int heads(const S_REVERB_OBJECT *p) { return p->m_sAp0.m_zApIn == AP0_IN && p->m_sAp1.m_zApIn == AP1_IN && p->m_zD0In == DELAY0_IN && p->m_zD1In == DELAY1_IN; }
static int aps(const S_REVERB_OBJECT *p) { return in(p->m_sAp0.m_zApOut, AP0_IN, AP0_OUT) && in(p->m_sAp1.m_zApOut, AP1_IN, AP1_OUT); }
static int taps(const S_REVERB_OBJECT *p) { return in(p->m_zD0Self, DELAY0_IN, DELAY0_OUT) && in(p->m_zD0Cross, DELAY0_IN, DELAY0_OUT) && in(p->m_zD1Self, DELAY1_IN, DELAY1_OUT) && in(p->m_zD1Cross, DELAY1_IN, DELAY1_OUT); }
static int rooms(const S_REVERB_OBJECT *p) { return in(p->m_nNextRoom, 0, REVERB_MAX_ROOM_TYPE - 1) && p->m_nMaxExcursion == 127 && p->m_nWet >= 0 && p->m_nDry >= 0 && in(p->m_nUpdateCounter, 0, 512); }
static void shape(void)
{
    INPUT(R);
#ifdef VK_NATIVE
    if (vk_random_mode()) {
        int k;
        for (k = 0; k < 4; k++) {
            S_REVERB_PRESET *q = &R.m_sPreset.m_sPreset[k]; const EAS_I16 *t = SPEC[k];
            q->m_nLpfFbk = t[0]; q->m_nLpfFwd = t[1]; q->m_nEarly = t[2]; q->m_nWet = t[3]; q->m_nDry = t[4]; q->m_nMaxExcursion = t[5]; q->m_nXfadeInterval = t[6]; q->m_nAp0_ApGain = t[7]; q->m_nAp0_ApOut = t[8]; q->m_nAp1_ApGain = t[9]; q->m_nAp1_ApOut = t[10];
        }
        R.m_sAp0.m_zApIn = AP0_IN; R.m_sAp1.m_zApIn = AP1_IN; R.m_zD0In = DELAY0_IN; R.m_zD1In = DELAY1_IN;
        R.m_sAp0.m_zApOut = AP0_IN + vk_rand() % (AP0_OUT - AP0_IN + 1); R.m_sAp1.m_zApOut = AP1_IN + vk_rand() % (AP1_OUT - AP1_IN + 1);
        R.m_zD0Self = DELAY0_IN + vk_rand() % MAX_DELAY_SAMPLES; R.m_zD0Cross = DELAY0_IN + vk_rand() % MAX_DELAY_SAMPLES;
        R.m_zD1Self = DELAY1_IN + vk_rand() % MAX_DELAY_SAMPLES; R.m_zD1Cross = DELAY1_IN + vk_rand() % MAX_DELAY_SAMPLES;
        R.m_nNextRoom &= 3; R.m_nMaxExcursion = 127; R.m_nWet &= 0x7fff; R.m_nDry &= 0x7fff; R.m_nUpdateCounter &= 511; R.m_bBypass &= 1;
        if (vk_rand() & 1) R.m_nCurrentRoom = R.m_nNextRoom;
        if (vk_rand() & 1) R.m_nXfadeCounter = R.m_nXfadeInterval;
    }
#endif
    PRE(heads(&R) && aps(&R) && taps(&R) && rooms(&R) && room_is(&R, 0) && room_is(&R, 1) && room_is(&R, 2) && room_is(&R, 3));
}
static int lines_same(void) { return R.m_nDelayLine[W] == OR.m_nDelayLine[W] && SAME(m_nBaseIndex) && SAME(m_zD0Self) && SAME(m_zD0Cross) && SAME(m_zD1Self) && SAME(m_zD1Cross) && SAME(m_sAp0.m_zApOut) && SAME(m_sAp1.m_zApOut) && heads(&R) && SAME(m_nRevOutFbkL) && SAME(m_nRevOutFbkR) && SAME(m_nXfadeCounter) && SAME(m_nXfadeInterval); }

//@ unit e07_set prop=E07 harness=h_set enforce=ReverbSetParam
void h_set(void)
{
    EAS_RESULT r, g; int ok; EAS_I32 was;
    shape(); INPUT(A_param); INPUT(A_value); INPUT(R_value); W = 77; was = R_value;
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_param = vk_rand() % 6 - 1; A_value = (vk_rand() & 1) ? (EAS_I32) (vk_rand() % 7) - 2 : A_value % 70000; }
#endif
    OR = R;
    r = EAS_Reverb.pFSetParam(&R, A_param, A_value);
    ok = A_param == EAS_PARAM_REVERB_BYPASS
      || (A_param == EAS_PARAM_REVERB_PRESET && A_value >= EAS_PARAM_REVERB_LARGE_HALL && A_value <= EAS_PARAM_REVERB_ROOM)
      || ((A_param == EAS_PARAM_REVERB_WET || A_param == EAS_PARAM_REVERB_DRY) && A_value >= 0 && A_value <= 32767);
    POST((r == EAS_SUCCESS) == ok, "legal values are accepted, others and unknown parameters are refused");
    POST(lines_same() && rooms(&R), "the delay lines are untouched and the state stays legal");
    POST(R.m_bBypass == (ok && A_param == EAS_PARAM_REVERB_BYPASS ? (EAS_BOOL) A_value : OR.m_bBypass), "bypass is stored and nothing else changes it");
    POST(R.m_nNextRoom == (ok && A_param == EAS_PARAM_REVERB_PRESET ? A_value : OR.m_nNextRoom) && SAME(m_nCurrentRoom), "the preset is stored and nothing else changes it");
    POST(R.m_nWet == (ok && A_param == EAS_PARAM_REVERB_WET ? A_value : OR.m_nWet), "the wet level is stored and nothing else changes it");
    POST(R.m_nDry == (ok && A_param == EAS_PARAM_REVERB_DRY ? A_value : OR.m_nDry), "the dry level is stored and nothing else changes it");
    OR = R;
    g = EAS_Reverb.pFGetParam(&R, A_param, &R_value);
    POST((g == EAS_SUCCESS) == (A_param >= EAS_PARAM_REVERB_BYPASS && A_param <= EAS_PARAM_REVERB_DRY), "exactly the known parameters can be read");
    if (g != EAS_SUCCESS) POST(R_value == was, "a refused read stores nothing");
    if (r == EAS_SUCCESS && A_param == EAS_PARAM_REVERB_BYPASS) POST((EAS_BOOL) R_value == (EAS_BOOL) A_value, "bypass reads back");
    else if (r == EAS_SUCCESS && A_param != EAS_PARAM_REVERB_PRESET) POST(R_value == A_value, "the levels read back");
    if (A_param == EAS_PARAM_REVERB_PRESET) POST(R_value == (EAS_I8) R.m_nCurrentRoom, "the preset reads back once it is in force");
    POST(SAME(m_bBypass) && SAME(m_nNextRoom) && SAME(m_nCurrentRoom) && SAME(m_nWet) && SAME(m_nDry) && lines_same(), "reading changes nothing");
    REACH();
}
//@ unit e07_bypass prop=E07 harness=h_bypass enforce=ReverbProcess cases=BUFS:0:1
void h_bypass(void)
{
    int i; EAS_PCM in0[4], out0[4];
    INPUT(IN); INPUT(OUTB); W = 77; shape(); P_n = 0;
R.m_bBypass = BUFS ? EAS_TRUE : 2; OR = R;     /* any nonzero value is a bypass */
    for (i = 0; i < 4; i++) { in0[i] = IN[i]; out0[i] = OUTB[i]; }
    EAS_Reverb.pfProcess(&R, IN, BUFS ? OUTB : IN, 2);
    for (i = 0; i < 4; i++) POST(IN[i] == in0[i], "a bypassed reverb leaves its input untouched");
    for (i = 0; i < 4; i++) POST(OUTB[i] == out0[i], "and writes no sample of its own");
    if (BUFS) POST(P_n == 1 && P_dst == (void *) OUTB && P_src == (const void *) IN && P_amount == 8, "the audio is copied to the output");
    else POST(P_n == 0, "in place there is nothing to copy");
    POST(lines_same() && SAME(m_bBypass) && SAME(m_nWet) && SAME(m_nNextRoom) && SAME(m_nCurrentRoom) && SAME(m_nPhase), "the effect state is untouched");
    REACH();
}
//@ unit e07_room prop=E07 harness=h_room enforce=ReverbUpdateRoom cases=ROOM:0:1:2:3
void h_room(void)
{
    const EAS_I16 *t = SPEC[ROOM];
    shape(); W = 77; R.m_nNextRoom = ROOM; OR = R;
    ReverbUpdateRoom(&R);
    POST(R.m_nCurrentRoom == ROOM && R.m_nNextRoom == ROOM && SAME(m_bBypass), "the requested room is in force");
    POST(R.m_nLpfFbk == t[0] && R.m_nLpfFwd == t[1] && R.m_nWet == t[3] && R.m_nDry == t[4] && R.m_sAp0.m_nApGain == t[7] && R.m_sAp1.m_nApGain == t[9], "with its levels and gains");
    POST(R.m_sAp0.m_zApOut == AP0_IN + ((t[8] * (EAS_I32) _OUTPUT_SAMPLE_RATE) >> 16) && R.m_sAp1.m_zApOut == AP1_IN + ((t[10] * (EAS_I32) _OUTPUT_SAMPLE_RATE) >> 16) && R.m_nXfadeInterval == (t[6] * (EAS_I32) _OUTPUT_SAMPLE_RATE) >> 16, "and its times in samples");
    POST(heads(&R) && aps(&R) && taps(&R) && rooms(&R), "every tap stays in its own section of the delay line");
    R.m_sAp0 = OR.m_sAp0; R.m_sAp1 = OR.m_sAp1; R.m_nXfadeInterval = OR.m_nXfadeInterval; POST(lines_same(), "the sound in the delay line is untouched");
    REACH();
}
//@ unit e07_noise prop=E07 harness=h_noise enforce=ReverbCalculateNoise
void h_noise(void)
{
    EAS_U16 r; EAS_I16 o;
    INPUT(A_exc); INPUT(A_noise); o = A_noise;
    r = ReverbCalculateNoise(A_exc, &A_noise);
    POST(r <= A_exc && A_noise == (EAS_I16) (o * 5 + 1), "an excursion never exceeds the maximum excursion");
    REACH();
}
//@ unit e07_xfade prop=E07 harness=h_xfade enforce=ReverbUpdateXfade
void h_xfade(void)
{
    int due, up;
    shape(); W = 77; OR = R; due = R.m_nXfadeCounter >= R.m_nXfadeInterval; up = R.m_nPhaseIncrement > 0;
    ReverbUpdateXfade(&R, BUFFER_SIZE_IN_MONO_SAMPLES);
    POST(heads(&R) && aps(&R) && taps(&R) && rooms(&R), "every tap stays in its own section of the delay line");
    POST(R.m_nXfadeCounter == (EAS_U16) ((due ? 0 : OR.m_nXfadeCounter) + BUFFER_SIZE_IN_MONO_SAMPLES), "the cross-fade runs once per interval");
    if (!(due && up)) POST(SAME(m_zD0Cross) && SAME(m_zD1Cross), "a cross tap only moves while its gain is zero");
    if (!(due && !up)) POST(SAME(m_zD0Self) && SAME(m_zD1Self), "a self tap only moves while its gain is zero");
    if (due) POST(up ? R.m_nCos == 0 && R.m_nSin == 32767 : R.m_nSin == 0 && R.m_nCos == 32767, "the moved taps are silent");
    POST(R.m_nDelayLine[W] == OR.m_nDelayLine[W] && SAME(m_nBaseIndex), "the sound in the delay line is untouched");
    REACH();
}
//@ unit e07_block nochecks=undefined-shift,signed-overflow prop=E07 harness=h_block enforce=Reverb kind=bounded bound=blocks_of_up_to_2_stereo_samples cases=NN:0:1:2
void h_block(void)
{
    int i; EAS_PCM out0[4], in0[4];
    shape(); INPUT(IN); INPUT(OUTB); OR = R;
    for (i = 0; i < 4; i++) { out0[i] = OUTB[i]; in0[i] = IN[i]; }
    Reverb(&R, NN, OUTB, IN);
    POST(R.m_nBaseIndex == (EAS_U16) (OR.m_nBaseIndex - NN), "the delay line moves on by one place per sample");
    POST(heads(&R) && aps(&R) && taps(&R) && rooms(&R) && room_is(&R, ROOM), "the state stays legal");
    for (i = 2 * NN; i < 4; i++) POST(OUTB[i] == out0[i], "nothing past the block is written");
    for (i = 0; i < 4; i++) POST(IN[i] == in0[i], "the input is only read");
    REACH();
}
//@ unit e07_dry prop=E07 harness=h_dry enforce=Reverb nochecks=undefined-shift,signed-overflow kind=bounded bound=blocks_of_one_stereo_sample
void h_dry(void)
{
    EAS_PCM l, r;
    shape(); INPUT(IN); R.m_nWet = 0; l = IN[0]; r = IN[1];
    Reverb(&R, 1, IN, IN);
    POST(IN[0] == l && IN[1] == r, "with no wet level the audio passes unchanged");
    REACH();
}
//@ unit e07_line nochecks=undefined-shift,signed-overflow prop=E07 harness=h_line enforce=Reverb kind=bounded bound=one_stereo_sample_at_one_place cases=BASE:65535
void h_line(void)
{
    EAS_U32 b;
    shape(); INPUT(IN); INPUT(W); W %= REVERB_BUFFER_SIZE_IN_SAMPLES; R.m_nBaseIndex = BASE; OR = R; b = BASE;
    Reverb(&R, 1, IN, IN);
    if (W != ((b + AP0_IN) & REVERB_BUFFER_MASK) && W != ((b + AP1_IN) & REVERB_BUFFER_MASK) && W != ((b + DELAY0_IN) & REVERB_BUFFER_MASK) && W != ((b + DELAY1_IN) & REVERB_BUFFER_MASK))
        POST(R.m_nDelayLine[W] == OR.m_nDelayLine[W], "only the heads of the four sections are written");
    REACH();
}
//@ unit e07_silence prop=E07 harness=h_silence enforce=Reverb kind=bounded bound=the_first_4_samples_of_two_rooms cases=ROOM:0:3 unwind=8200 fs=9000
void h_silence(void)
{
    EAS_VOID_PTR inst; EAS_PCM b[8]; int i;
    INPUT(A_noise); INPUT(IN); A_fail = 0; ED.staticMemoryModel = 1;
    EAS_Reverb.pfInit(&ED, &inst); EAS_Reverb.pFSetParam(&R, EAS_PARAM_REVERB_BYPASS, EAS_FALSE); EAS_Reverb.pFSetParam(&R, EAS_PARAM_REVERB_PRESET, ROOM);
    for (i = 0; i < 8; i++) b[i] = i < 4 ? 0 : IN[i - 4];
    EAS_Reverb.pfProcess(&R, b, b, 4);
    for (i = 0; i < 8; i++) POST(b[i] == (i < 4 ? 0 : IN[i - 4]), "silence stays silent and a sound echoes only after the shortest delay");
    POST(R.m_nCurrentRoom == ROOM && heads(&R) && aps(&R) && taps(&R) && rooms(&R), "the requested room is in force and every tap lies in its own section");
    REACH();
}
//@ unit e07_process nochecks=undefined-shift,signed-overflow prop=E07 harness=h_process enforce=ReverbProcess kind=bounded bound=blocks_of_one_stereo_sample
void h_process(void)
{
    shape(); INPUT(IN); OR = R; PRE(!R.m_bBypass && !(R.m_nWet == 0 && R.m_nDry == 32767));
    EAS_Reverb.pfProcess(&R, IN, IN, 1);
    POST(R.m_nCurrentRoom == OR.m_nNextRoom && SAME(m_nNextRoom), "a requested preset is in force once a block has been processed");
    POST(heads(&R) && aps(&R) && taps(&R) && rooms(&R), "the state stays legal");
    POST(P_n == 0 || VK_IS_NATIVE, "nothing is copied");
    REACH();
}
//@ unit e07_init prop=E07 harness=h_init enforce=ReverbInit unwind=8200
void h_init(void)
{
    EAS_RESULT r; EAS_VOID_PTR inst = NULL; int k;
    INPUT(R); INPUT(A_fail); INPUT(ED.staticMemoryModel); INPUT(W); W %= REVERB_BUFFER_SIZE_IN_SAMPLES; A_n = P_bad = A_freed = 0;
    r = EAS_Reverb.pfInit(&ED, &inst);
    POST((r == EAS_SUCCESS) == !(A_fail & 1) && A_n == 1, "the effect exists unless its memory could not be had");
    POST(inst == (r == EAS_SUCCESS ? (void *) &R : NULL), "its object is handed out only then");
    if (r == EAS_SUCCESS) {
        POST(!P_bad && heads(&R) && aps(&R) && rooms(&R) && R.m_nXfadeCounter >= R.m_nXfadeInterval && R.m_nPhaseIncrement > 0 && in(R.m_zD0Self, DELAY0_IN, DELAY0_OUT) && in(R.m_zD1Self, DELAY1_IN, DELAY1_OUT), "it starts in a legal state; its cross taps are placed by the first block");
        for (k = 0; k < 4; k++) POST(room_is(&R, k), "with the documented presets");
        POST(R.m_bBypass && R.m_nDelayLine[W] == 0 && R.m_nNextRoom == 1 && R.m_nCurrentRoom != 1, "bypassed, silent and about to enter the default room");
        r = EAS_Reverb.pfShutdown(&ED, inst);
        POST(r == EAS_SUCCESS && A_freed == (ED.staticMemoryModel ? 0 : 1) && (!A_freed || A_ptr == (void *) &R), "its memory is given back exactly once");
    }
    REACH();
}
/* a whole render block: the loop contract covers every number of samples up to the block size */
static EAS_PCM BIN[2 * BUFFER_SIZE_IN_MONO_SAMPLES], BOUT[2 * BUFFER_SIZE_IN_MONO_SAMPLES + 2]; static EAS_U16 N; static EAS_PCM OB[2];
//@ unit e07_whole prop=E07 harness=h_whole enforce=Reverb nochecks=undefined-shift,signed-overflow
//@ loop[e07_whole] Reverb:2 locals: i, nDelayOut, nBase, nAddr, nTemp1, nTemp2, nApIn, nApOut, j, nEarlyOut, tempValue, pInputBuffer, pOutputBuffer; assigns: i, nDelayOut, nBase, nAddr, nTemp1, nTemp2, nApIn, nApOut, j, nEarlyOut, tempValue, pInputBuffer, pOutputBuffer, R, __CPROVER_object_upto(BOUT, 1024); inv: i >= 0 && i <= N && pInputBuffer == BIN + 2 * i && pOutputBuffer == BOUT + 2 * i
//@ loop[e07_whole] Reverb:0 locals: j, nAddr, nDelayOut, nTemp1, nEarlyOut; assigns: j, nAddr, nDelayOut, nTemp1, nEarlyOut; inv: j >= 0 && j <= 5
//@ loop[e07_whole] Reverb:1 locals: j, nAddr, nDelayOut, nTemp1, nEarlyOut; assigns: j, nAddr, nDelayOut, nTemp1, nEarlyOut; inv: j >= 0 && j <= 5
void h_whole(void)
{
    INPUT(R); INPUT(BIN); INPUT(BOUT); INPUT(N); N %= BUFFER_SIZE_IN_MONO_SAMPLES + 1; OB[0] = BOUT[512]; OB[1] = BOUT[513];
    Reverb(&R, N, BOUT, BIN);
    POST(BOUT[512] == OB[0] && BOUT[513] == OB[1], "nothing past the block is written");
    REACH();
}
