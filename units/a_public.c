/* A01 validation of public parameters, A02 stream life cycle, A03 playback clock: the public layer (eas_public.c).
 * The parser modules, the voice manager, the engines and the host are contract stubs that record how they are used. */
//@ file mode=plain timeout=150 solver=cadical unwind=12 link=eas_math.c nlink=eas_math.c
#include "kit.h"
#include "eas_data.h"
#include "eas_host.h"
#include "eas_config.h"
#include "eas_report.h"
#include "eas_miditypes.h"
#include "eas_parser.h"
#include "eas_vm_protos.h"
#include "eas_midi.h"
#include "eas_pcm.h"
#include "eas_mixer.h"
#include "eas_mdls.h"
#include "eas_math.h"
#ifndef PT
#define PT 0                     /* 0: a parser with every optional function, 1: one without any */
#endif
static S_EAS_DATA ED, OE; static S_SYNTH SY; static S_VOICE_MGR VM; static S_INTERACTIVE_MIDI MI, OM; static char HW, LOC, FH, HND[4], FXD[8]; static EAS_I32 MIXB[512]; static EAS_PCM OUTB[512];
static EAS_I32 A_v, A_w, A_m, G_v; static EAS_U8 A_s, X_bad, A_fail, A_null; static EAS_RESULT R_res;
/* parser */
static EAS_STATE P_state[4]; static EAS_RESULT P_stres[4], R_set, R_get, R_prep, R_pause, R_resume, R_close[4], R_reset, R_loc, R_meta, R_chk[2]; static EAS_U8 N_state, N_prep, N_close[4], N_pause, N_resume, N_reset, N_loc, N_meta, N_set, N_get, N_chk, P_own, A_rec[2], H_gain; static EAS_I32 S_param, S_value, P_gain, P_other, L_time; static EAS_U8 SEQ, T_a, T_b, T_c, T_d;
static int who(void *h) { if (h == (void *) &HND[0]) return 0; if (h == (void *) &HND[1]) return 1; if (h == (void *) &HND[2]) return 2; if (h == (void *) &HND[3]) return 3; X_bad = 1; return 0; }
static void ed(void *p) { if (p != (void *) &ED) X_bad = 1; }
static EAS_RESULT s_check(S_EAS_DATA *e, EAS_FILE_HANDLE f, EAS_VOID_PTR *h, EAS_I32 o) { int n = N_chk; ed(e); if (f != (EAS_FILE_HANDLE) &FH || o || n > 1) { X_bad = 1; return EAS_FAILURE; } N_chk++; if (R_chk[n] == EAS_SUCCESS && A_rec[n]) *h = &HND[3]; return R_chk[n]; }
static EAS_RESULT s_prepare(S_EAS_DATA *e, EAS_VOID_PTR h) { ed(e); who(h); N_prep++; T_a = ++SEQ; return R_prep; }
static EAS_RESULT s_state(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_STATE *s) { int k = who(h); ed(e); N_state++; *s = P_state[k]; return P_stres[k]; }
static EAS_RESULT s_close(S_EAS_DATA *e, EAS_VOID_PTR h) { int k = who(h); ed(e); N_close[k]++; T_a = ++SEQ; return R_close[k]; }
static EAS_RESULT s_reset(S_EAS_DATA *e, EAS_VOID_PTR h) { ed(e); who(h); N_reset++; return R_reset; }
static EAS_RESULT s_pause(S_EAS_DATA *e, EAS_VOID_PTR h) { ed(e); who(h); N_pause++; return R_pause; }
static EAS_RESULT s_resume(S_EAS_DATA *e, EAS_VOID_PTR h) { ed(e); who(h); N_resume++; return R_resume; }
static EAS_RESULT s_locate(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 t, EAS_BOOL *own) { ed(e); who(h); N_loc++; L_time = t; *own = P_own; return R_loc; }
static EAS_RESULT s_set(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 p, EAS_I32 v) { ed(e); who(h); N_set++; S_param = p; S_value = v; return R_set; }
static EAS_RESULT s_get(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 p, EAS_I32 *v)
{
    ed(e); who(h); N_get++;
    if (p == PARSER_DATA_SYNTH_HANDLE) { if (R_get == EAS_SUCCESS) *(S_SYNTH **) v = A_null ? NULL : &SY; return R_get; }
    if (p == PARSER_DATA_GAIN_OFFSET) { if (H_gain) { *v = P_gain; return EAS_SUCCESS; } return EAS_ERROR_INVALID_PARAMETER; }
    S_param = p;
    if (R_set == EAS_SUCCESS) *v = P_other;
    return R_set;
}
static EAS_RESULT s_meta(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_I32 *v) { ed(e); who(h); N_meta++; *v = P_other; return R_meta; }
/* a clock: the time of the next event; an event moves it on */
static EAS_U32 C_time, C_last; static EAS_RESULT R_time, R_ev; static EAS_I32 N_ev; static EAS_U8 C_fail, C_mode; static EAS_U32 C_lim;
static EAS_RESULT s_time(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_U32 *t);
static EAS_RESULT s_event(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_INT mode);
static const S_FILE_PARSER_INTERFACE PIF[2] = { { s_check, s_prepare, s_time, s_event, s_state, s_close, s_reset, s_pause, s_resume, s_locate, s_set, s_get, s_meta }, { s_check, s_prepare, NULL, s_event, s_state, s_close, s_reset, NULL, NULL, NULL, NULL, NULL, NULL } };
/* voice manager */
static EAS_U8 N_vol, N_prio, N_poly, N_tran, N_lib, N_dls, N_wl, N_init, N_shut, N_inc, N_vmr, N_vms, N_av, N_ac; static EAS_I32 V_a, V_b; static EAS_RESULT R_vm; static EAS_U8 V_fail;
static void vm(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != &SY) X_bad = 1; }
void VMSetVolume(S_SYNTH *s, EAS_U16 v) { if (s != &SY) X_bad = 1; N_vol++; V_a = v; }
EAS_RESULT VMSetPriority(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 v) { vm(m, s); N_prio++; V_a = v; return R_vm; }
EAS_RESULT VMGetPriority(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 *v) { vm(m, s); N_prio++; *v = V_b; return R_vm; }
EAS_RESULT VMSetPolyphony(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 v) { vm(m, s); N_poly++; V_a = v; return R_vm; }
EAS_RESULT VMGetPolyphony(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 *v) { vm(m, s); N_poly++; *v = V_b; return R_vm; }
EAS_RESULT VMSetSynthPolyphony(S_VOICE_MGR *m, EAS_I32 n, EAS_I32 v) { vm(m, &SY); N_poly++; V_a = v; V_b = n; return R_vm; }
EAS_RESULT VMGetSynthPolyphony(S_VOICE_MGR *m, EAS_I32 n, EAS_I32 *v) { vm(m, &SY); N_poly++; V_a = n; *v = V_b; return R_vm; }
void VMSetTranposition(S_SYNTH *s, EAS_I32 v) { vm(&VM, s); N_tran++; V_a = v; }
void VMGetTranposition(S_SYNTH *s, EAS_I32 *v) { vm(&VM, s); N_tran++; *v = V_b; }
EAS_I32 VMGetNoteCount(S_SYNTH *s) { vm(&VM, s); return V_b; }
EAS_RESULT VMSetEASLib(S_SYNTH *s, EAS_SNDLIB_HANDLE l) { vm(&VM, s); N_lib++; V_a = (EAS_I32) l; return R_vm; }
EAS_RESULT VMSetGlobalEASLib(S_VOICE_MGR *m, EAS_SNDLIB_HANDLE l) { vm(m, &SY); N_lib++; V_a = (EAS_I32) l; return R_vm; }
EAS_RESULT VMSetDLSLib(S_SYNTH *s, EAS_DLSLIB_HANDLE l) { vm(&VM, s); N_dls++; if (R_vm == EAS_SUCCESS) s->pDLS = l; return R_vm; }
EAS_RESULT VMSetGlobalDLSLib(EAS_DATA_HANDLE e, EAS_DLSLIB_HANDLE l) { ed(e); N_dls++; V_a = (EAS_I32) l; return R_vm; }
void VMInitWorkload(S_VOICE_MGR *m) { vm(m, &SY); N_wl++; }
void VMSetWorkload(S_VOICE_MGR *m, EAS_I32 v) { vm(m, &SY); V_a = v; }
void VMInitializeAllVoices(S_VOICE_MGR *m, EAS_INT n) { vm(m, &SY); N_av++; if (n != SY.vSynthNum) X_bad = 1; }
void VMInitializeAllChannels(S_VOICE_MGR *m, S_SYNTH *s) { vm(m, s); N_ac++; }
EAS_RESULT VMInitialize(S_EAS_DATA *e) { return EAS_SUCCESS; }
EAS_RESULT VMInitMIDI(S_EAS_DATA *e, S_SYNTH **s) { ed(e); N_init++; if (V_fail) { *s = NULL; return EAS_ERROR_NO_VIRTUAL_SYNTHESIZER; } *s = &SY; return EAS_SUCCESS; }
void VMIncRefCount(S_SYNTH *s) { vm(&VM, s); N_inc++; }
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s) { ed(e); vm(&VM, s); N_shut++; }
void VMShutdown(S_EAS_DATA *e) { ed(e); N_vms++; T_b = ++SEQ; }
static EAS_U8 W_stop, N_fed, N_mp, N_mq, N_pe; static EAS_U8 R_vmr, R_per;
EAS_BOOL VMCheckWorkload(S_VOICE_MGR *m);
EAS_RESULT VMRender(S_VOICE_MGR *m, EAS_I32 n, EAS_I32 *b, EAS_I32 *v) { vm(m, &SY); N_vmr++; T_b = ++SEQ; if (n != 256 || b != MIXB) X_bad = 1; *v = 3; return R_vmr ? EAS_FAILURE : EAS_SUCCESS; }
void VMRegExtAudioCallback(S_SYNTH *s, EAS_VOID_PTR i, EAS_EXT_PRG_CHG_FUNC p, EAS_EXT_EVENT_FUNC f) { }
void VMGetMIDIControllers(S_SYNTH *s, EAS_U8 c, S_MIDI_CONTROLLERS *p) { }
void EAS_MixEnginePrep(EAS_DATA_HANDLE e, EAS_I32 n) { ed(e); N_mp++; T_a = ++SEQ; if (n != 256) X_bad = 1; }
void EAS_MixEnginePost(EAS_DATA_HANDLE e, EAS_I32 n) { ed(e); N_mq++; T_d = ++SEQ; if (n != 256) X_bad = 1; }
EAS_RESULT EAS_PERender(EAS_DATA_HANDLE e, EAS_I32 n) { ed(e); N_pe++; T_c = ++SEQ; if (n != 256) X_bad = 1; return R_per ? EAS_FAILURE : EAS_SUCCESS; }
static EAS_RESULT R_pes, R_mxs, R_fxs, R_hws; static EAS_U8 N_pes, N_mxs, N_fxs, N_hws, N_free, N_open, N_fclose, N_alloc, N_seek; static EAS_RESULT R_open; static EAS_U8 M_ok, S_fail; static void *M_what;
EAS_RESULT EAS_PEInit(EAS_DATA_HANDLE e) { return EAS_SUCCESS; }
EAS_RESULT EAS_PEShutdown(EAS_DATA_HANDLE e) { ed(e); N_pes++; return R_pes; }
EAS_RESULT EAS_MixEngineInit(EAS_DATA_HANDLE e) { return EAS_SUCCESS; }
EAS_RESULT EAS_MixEngineShutdown(EAS_DATA_HANDLE e) { ed(e); N_mxs++; return R_mxs; }
/* effects */
static EAS_RESULT R_fx; static EAS_U8 N_fx; static EAS_I32 F_p, F_v; static void *F_d;
static EAS_RESULT f_init(EAS_DATA_HANDLE e, EAS_VOID_PTR *d) { return EAS_SUCCESS; }
static void f_proc(EAS_VOID_PTR d, EAS_PCM *in, EAS_PCM *out, EAS_I32 n) { }
static EAS_RESULT f_shut(EAS_DATA_HANDLE e, EAS_VOID_PTR d) { ed(e); N_fxs++; F_d = d; return R_fxs; }
static EAS_RESULT f_get(EAS_VOID_PTR d, EAS_I32 p, EAS_I32 *v) { N_fx++; F_d = d; F_p = p; *v = F_v; return R_fx; }
static EAS_RESULT f_set(EAS_VOID_PTR d, EAS_I32 p, EAS_I32 v) { N_fx++; F_d = d; F_p = p; F_v = v; return R_fx; }
static S_EFFECTS_INTERFACE FXI = { f_init, f_proc, f_shut, f_get, f_set };
/* host and configuration */
EAS_RESULT EAS_HWInit(EAS_HW_DATA_HANDLE *p) { return EAS_SUCCESS; }
EAS_RESULT EAS_HWShutdown(EAS_HW_DATA_HANDLE h) { if (h != (void *) &HW) X_bad = 1; N_hws++; T_d = ++SEQ; return R_hws; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { if (h != (void *) &HW || n != sizeof(MI)) X_bad = 1; N_alloc++; return M_ok ? &MI : NULL; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { if (h != (void *) &HW) X_bad = 1; N_free++; M_what = p; T_c = ++SEQ; }
static const S_INTERACTIVE_MIDI Z_mi;
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { if (s == (void *) &MI && !c && n == sizeof(MI)) MI = Z_mi; else X_bad = 1; return s; }
EAS_RESULT EAS_HWOpenFile(EAS_HW_DATA_HANDLE h, EAS_FILE_LOCATOR l, EAS_FILE_HANDLE *f, EAS_FILE_MODE m) { if (h != (void *) &HW || l != (EAS_FILE_LOCATOR) &LOC || m != EAS_FILE_READ) X_bad = 1; N_open++; if (R_open == EAS_SUCCESS) *f = (EAS_FILE_HANDLE) &FH; return R_open; }
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f) { if (h != (void *) &HW || f != (EAS_FILE_HANDLE) &FH) X_bad = 1; N_fclose++; return EAS_SUCCESS; }
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 p) { if (h != (void *) &HW || f != (EAS_FILE_HANDLE) &FH || p) X_bad = 1; N_seek++; return S_fail ? EAS_ERROR_FILE_SEEK : EAS_SUCCESS; }
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p);
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 *p);
EAS_BOOL EAS_HWYield(EAS_HW_DATA_HANDLE h);
EAS_BOOL EAS_CMStaticMemoryModel(void) { return EAS_FALSE; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { if (m != EAS_CM_MIDI_STREAM_DATA) X_bad = 1; return M_ok ? &MI : NULL; }
EAS_VOID_PTR EAS_CMEnumModules(EAS_INT m) { return m == 0 || m == 1 ? (EAS_VOID_PTR) &PIF[0] : NULL; }
EAS_VOID_PTR EAS_CMEnumFXModules(EAS_INT m) { return NULL; }
EAS_VOID_PTR EAS_CMEnumOptModules(EAS_INT m) { return NULL; }
static S_DLS DL, DO; static EAS_U8 N_ref, N_unref; static EAS_RESULT R_dls; static void *U_a, *U_b;
EAS_RESULT DLSParser(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 o, EAS_DLSLIB_HANDLE *d) { if (h != (void *) &HW || f != (EAS_FILE_HANDLE) &FH || o) X_bad = 1; *d = R_dls == EAS_SUCCESS ? (EAS_DLSLIB_HANDLE) &DL : NULL; return R_dls; }
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE h, S_DLS *d) { if (h != (void *) &HW) X_bad = 1; if (d == &DL) N_unref++; else if (d == &DO) N_unref += 16; else X_bad = 1; T_c = ++SEQ; return EAS_SUCCESS; }
void DLSAddRef(S_DLS *d) { if (d != &DL) X_bad = 1; N_ref++; T_a = ++SEQ; }
void EAS_InitMIDIStream(S_MIDI_STREAM *m) { if (m != &MI.stream) X_bad = 1; m->runningStatus = 0; m->sysExState = 0xee; }
EAS_RESULT EAS_ParseMIDIStream(S_EAS_DATA *e, S_SYNTH *s, S_MIDI_STREAM *m, EAS_U8 c, EAS_INT mode);
#include "eas_public.c"
#define ST(k) (&ED.streams[k])
#define INP1 INPUT(ED); INPUT(P_state); INPUT(P_stres); INPUT(R_set); INPUT(R_get); INPUT(A_v); INPUT(A_w); INPUT(A_s); INPUT(A_fail); INPUT(A_null); INPUT(R_vm); INPUT(V_b); INPUT(P_gain); INPUT(P_other); INPUT(H_gain); INPUT(VM); INPUT(SY); INPUT(M_ok); INPUT(V_fail); INPUT(MI); world()
static void world(void)
{
    int k;
    for (k = 0; k < 4; k++) { P_stres[k] = P_stres[k] & 1 ? EAS_FAILURE : EAS_SUCCESS; if (P_state[k] < 0 || P_state[k] > EAS_STATE_EMPTY) P_state[k] = EAS_STATE_OPEN; ED.streams[k].pParserModule = ED.streams[k].pParserModule ? (void *) &PIF[PT] : NULL; ED.streams[k].handle = ED.streams[k].pParserModule ? (void *) &HND[k] : ED.streams[k].handle ? (void *) &MI : NULL; }
    R_set = R_set & 1 ? EAS_FAILURE : EAS_SUCCESS; R_get = R_get & 1 ? EAS_FAILURE : EAS_SUCCESS; R_vm = R_vm & 1 ? EAS_FAILURE : EAS_SUCCESS;
    ED.pVoiceMgr = &VM; ED.hwInstData = (void *) &HW; ED.pMixBuffer = MIXB; A_s &= 3; H_gain &= 1; A_null &= 1;
    X_bad = N_state = N_prep = N_pause = N_resume = N_reset = N_loc = N_meta = N_set = N_get = N_chk = N_vol = N_prio = N_poly = N_tran = N_lib = N_dls = N_wl = N_init = N_shut = N_inc = N_vmr = N_vms = N_fed = N_mp = N_mq = N_pe = 0; SEQ = T_a = T_b = T_c = T_d = N_av = N_ac = 0;
    N_pes = N_mxs = N_fxs = N_hws = N_free = N_open = N_fclose = N_alloc = N_seek = N_fx = N_ref = N_unref = 0; N_ev = 0; N_close[0] = N_close[1] = N_close[2] = N_close[3] = 0;
#ifdef VK_NATIVE
    if (vk_random_mode()) { EAS_U16 p = vk_rand(); for (k = 0; k < 4; k++) { P_stres[k] = vk_rand() % 8 ? 0 : EAS_FAILURE; P_state[k] = vk_rand() % 9; if (vk_rand() & 3) P_state[k] %= 2; if (vk_rand() & 1) { ED.streams[k].pParserModule = NULL; ED.streams[k].handle = vk_rand() & 1 ? (void *) &MI : NULL; } ED.streams[k].streamFlags &= 15; ED.streams[k].time &= 0xffffffff; ED.streams[k].frameLength &= 8191; ED.streams[k].repeatCount = (EAS_I32) (vk_rand() % 4) - 1; } R_set = p & 1 ? EAS_FAILURE : 0; if (p & 6) R_get = R_vm = 0; if (p & 8) A_v = (EAS_I32) (vk_rand() % 130) - 12; P_gain = (EAS_I32) (vk_rand() % 40) - 20; ED.staticMemoryModel = 0; A_null = !(p & 0x70); }
#endif
}
SPEC_BEGIN
static int same_stream(int k) { S_EAS_STREAM *a = &ED.streams[k], *b = &OE.streams[k]; return a->pParserModule == b->pParserModule && a->time == b->time && a->frameLength == b->frameLength && a->repeatCount == b->repeatCount && a->handle == b->handle && a->volume == b->volume && a->streamFlags == b->streamFlags; }
static int same_others(int k) { int j, ok = ED.renderTime == OE.renderTime && ED.pPCMStreams == OE.pPCMStreams && ED.pVoiceMgr == OE.pVoiceMgr && ED.pMixBuffer == OE.pMixBuffer; for (j = 0; j < 4; j++) if (j != k) ok = ok && same_stream(j); return ok; }
static int same_master(void) { return ED.masterGain == OE.masterGain && ED.masterVolume == OE.masterVolume; }
static int same_all(void) { return same_others(-1) && same_master(); }
static int ready(int k) { return ST(k)->pParserModule && P_stres[k] == EAS_SUCCESS && P_state[k] < EAS_STATE_OPEN; }
static int quiet(void) { return !N_set && !N_vol && !N_prio && !N_poly && !N_tran && !N_fx; }
/* what a parameter becomes: the parser takes it, or the synthesizer of the stream, or it is an error */
static int reach_synth(void) { return (PT == 1 || R_set != EAS_SUCCESS) && PT == 0 && R_get == EAS_SUCCESS && !A_null; }
SPEC_END

//@ unit a01_master prop=A01 harness=h_master enforce=EAS_SetVolume
void h_master(void)
{
    INP1; OE = ED; R_res = EAS_SetVolume(&ED, NULL, A_v);
    POST(!X_bad && quiet() && same_others(-1), "the master volume touches nothing else");
    if (A_v < 0 || A_v > 100) POST(R_res == EAS_ERROR_PARAMETER_RANGE && same_master(), "a volume outside 0..100 is refused and changes nothing");
    else {
        POST(R_res == EAS_SUCCESS && EAS_GetVolume(&ED, NULL) == A_v, "the volume set is the volume read");
        POST(ED.masterGain == EAS_VolumeToGain(A_v - 10) && ED.masterGain >= 0, "and its gain is that of 10 dB less");
    }
    REACH();
}
//@ unit a01_volume prop=A01 harness=h_volume enforce=EAS_SetVolume cases=PT:0:1
void h_volume(void)
{
    EAS_I32 g;
    INP1; PRE(P_gain >= -1000 && P_gain <= 1000); OE = ED; R_res = EAS_SetVolume(&ED, ST(A_s), A_v);
    POST(!X_bad && same_others(A_s) && same_master(), "only the stream addressed");
    if (A_v < 0 || A_v > 100) POST(R_res == EAS_ERROR_PARAMETER_RANGE && same_all() && quiet(), "a volume outside 0..100 is refused and changes nothing");
    else if (!ready(A_s)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && same_all() && quiet(), "a stream that is not prepared refuses it");
    else {
        POST(ST(A_s)->volume == A_v && EAS_GetVolume(&ED, ST(A_s)) == A_v, "the volume set is the volume read");
        ST(A_s)->volume = OE.streams[A_s].volume; POST(same_stream(A_s), "nothing else of the stream changes");
        g = EAS_VolumeToGain((EAS_INT) (A_v + (PT == 0 && H_gain ? P_gain : 0) - 10));
        if (PT == 0) POST(N_set == 1 && S_param == PARSER_DATA_VOLUME && S_value == g, "its gain is offered to the parser");
        if (PT == 0 && R_set == EAS_SUCCESS) POST(R_res == EAS_SUCCESS && !N_vol, "which may take it");
        else if (reach_synth()) POST(R_res == EAS_SUCCESS && N_vol == 1 && V_a == g, "or else set on the synthesizer of the stream");
        else POST(R_res == EAS_ERROR_INVALID_PARAMETER && !N_vol, "no synthesizer");
    }
    REACH();
}
//@ unit a01_getvol prop=A01 harness=h_getvol enforce=EAS_GetVolume cases=PT:0:1
void h_getvol(void)
{
    INP1; OE = ED; R_res = EAS_GetVolume(&ED, A_fail & 1 ? NULL : ST(A_s));
    POST(!X_bad && same_all() && quiet(), "reading changes nothing");
    POST(R_res == (A_fail & 1 ? ED.masterVolume : ready(A_s) ? ST(A_s)->volume : EAS_ERROR_NOT_VALID_IN_THIS_STATE), "the volume of the stream, or of the engine");
    REACH();
}
/* one harness for the setters that only pass a value on: OP 0 polyphony, 1 priority, 2 transposition */
#ifndef OP
#define OP 0
#endif
//@ unit a01_set prop=A01 harness=h_set enforce=EAS_IntSetStrmParam cases=OP:0:1:2
//@ unit a01_bset prop=A01 harness=h_set enforce=EAS_IntSetStrmParam cases=OP:0:1:2 defs=-DPT=1
void h_set(void)
{
    int ok; EAS_I32 prm = OP == 0 ? PARSER_DATA_POLYPHONY : OP == 1 ? PARSER_DATA_PRIORITY : PARSER_DATA_TRANSPOSITION;
    INP1; OE = ED; PRE(OP == 1 || OP == 2 || 1);
    R_res = OP == 0 ? EAS_SetPolyphony(&ED, ST(A_s), A_v) : OP == 1 ? EAS_SetPriority(&ED, ST(A_s), A_v) : EAS_SetTransposition(&ED, ST(A_s), A_v);
    ok = OP == 0 ? 1 : OP == 1 ? A_v >= 1 && A_v <= 15 : A_v >= -12 && A_v <= 12;
    POST(!X_bad && same_all(), "no engine state changes here");
    if (!ok) POST(R_res == (OP == 1 ? EAS_ERROR_PARAMETER_RANGE : EAS_ERROR_INVALID_PARAMETER) && quiet(), "a value outside the documented range is refused and goes nowhere");
    else if (!ready(A_s)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && quiet(), "a stream that is not prepared refuses it");
    else {
        if (PT == 0) POST(N_set == 1 && S_param == prm && S_value == A_v, "the value is offered to the parser");
        if (PT == 0 && R_set == EAS_SUCCESS) POST(R_res == EAS_SUCCESS && !N_poly && !N_prio && !N_tran, "which may take it");
        else if (reach_synth()) POST(R_res == (OP == 2 ? EAS_SUCCESS : R_vm) && V_a == A_v && N_poly == (OP == 0) && N_prio == (OP == 1) && N_tran == (OP == 2), "or else set on the synthesizer of the stream");
        else POST(R_res == EAS_ERROR_INVALID_PARAMETER && !N_poly && !N_prio && !N_tran, "no synthesizer");
    }
    REACH();
}
/* and the getters: OP 0 polyphony, 1 priority, 2 note count */
//@ unit a01_get prop=A01 harness=h_get enforce=EAS_IntGetStrmParam cases=OP:0:1:2
//@ unit a01_bget prop=A01 harness=h_get enforce=EAS_IntGetStrmParam cases=OP:0:1:2 defs=-DPT=1
void h_get(void)
{
    EAS_I32 got;
    INP1; got = A_w; OE = ED;
    R_res = OP == 0 ? EAS_GetPolyphony(&ED, ST(A_s), &got) : OP == 1 ? EAS_GetPriority(&ED, ST(A_s), &got) : EAS_GetNoteCount(&ED, ST(A_s), &got);
    POST(!X_bad && same_all() && !N_set && !N_vol && !N_tran, "reading changes nothing");
    if (!ready(A_s)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && got == A_w, "a stream that is not prepared has no value");
    else if (PT == 0 && R_set == EAS_SUCCESS) POST(R_res == EAS_SUCCESS && got == P_other && S_param == (OP == 0 ? PARSER_DATA_POLYPHONY : OP == 1 ? PARSER_DATA_PRIORITY : PARSER_DATA_NOTE_COUNT), "the value of the parser");
    else if (reach_synth()) POST(R_res == (OP == 2 ? EAS_SUCCESS : R_vm) && got == V_b, "or of the synthesizer of the stream");
    else POST(R_res == EAS_ERROR_INVALID_PARAMETER && got == A_w, "no synthesizer");
    REACH();
}
//@ unit a01_engine prop=A01,V04 harness=h_eng enforce=EAS_SetSynthPolyphony
void h_eng(void)
{
    EAS_I32 got = 0, b;
    INP1; OE = ED; b = V_b; R_res = EAS_GetSynthPolyphony(&ED, A_w, &got);
    POST(R_res == R_vm && got == b && V_a == A_w && N_poly == 1, "the polyphony of the engine reads through");
    R_res = EAS_SetSynthPolyphony(&ED, A_w, A_v);
    POST(R_res == R_vm && V_a == A_v && V_b == A_w && N_poly == 2 && !X_bad && same_all(), "and is set through");
    R_res = EAS_SetRepeat(&ED, ST(A_s), A_v);
    POST(R_res == EAS_SUCCESS && EAS_GetRepeat(&ED, ST(A_s), &got) == EAS_SUCCESS && got == A_v && same_others(A_s), "the repeat count reads back");
    REACH();
}
//@ unit a01_rate prop=A01,A03 harness=h_rate enforce=EAS_SetPlaybackRate cases=PT:0:1
void h_rate(void)
{
    INP1; OE = ED; R_res = EAS_SetPlaybackRate(&ED, ST(A_s), (EAS_U32) A_v);
    POST(!X_bad && same_others(A_s) && same_master(), "only the stream addressed");
    if ((EAS_U32) A_v < 0x8000000 || (EAS_U32) A_v > 0x20000000) POST(R_res == EAS_ERROR_INVALID_PARAMETER && same_all() && quiet(), "a rate outside 1/2..2 is refused and changes nothing");
    else {
        POST(R_res == EAS_SUCCESS && ST(A_s)->frameLength == (EAS_U32) ((1486 * ((A_v >> 8) & 0xffffff)) >> 20), "the clock of the stream advances by a block times the rate");
        POST(ST(A_s)->frameLength >= 743 && ST(A_s)->frameLength <= 2972 && (A_v != 0x10000000 || ST(A_s)->frameLength == 1486), "half to double, and one block at the normal rate");
        if (ST(A_s)->pParserModule && PT == 0) POST(N_set == 1 && S_param == PARSER_DATA_PLAYBACK_RATE && S_value == A_v, "the parser is told");
        ST(A_s)->frameLength = OE.streams[A_s].frameLength; POST(same_stream(A_s), "nothing else changes");
    }
    REACH();
}
//@ unit a01_param prop=A01 harness=h_param enforce=EAS_SetParameter
void h_param(void)
{
    int k; EAS_I32 got, v, ok;
    INP1; INPUT(A_m); INPUT(R_fx); INPUT(F_v); for (k = 0; k < NUM_EFFECTS_MODULES; k++) { ED.effectsModules[k].effect = &FXI; ED.effectsModules[k].effectData = ED.effectsModules[k].effectData ? &FXD[k & 7] : NULL; }
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_m = (EAS_I32) (vk_rand() % (NUM_EFFECTS_MODULES + 4)) - 2; for (k = 0; k < NUM_EFFECTS_MODULES; k++) ED.effectsModules[k].effectData = vk_rand() & 1 ? &FXD[k & 7] : NULL; }
#endif
    OE = ED; got = A_w; v = F_v; ok = A_m >= 0 && A_m < NUM_EFFECTS_MODULES; if (ok) ok = ED.effectsModules[A_m].effectData != NULL;
    R_res = EAS_GetParameter(&ED, A_m, A_v, &got);
    POST(ok ? R_res == R_fx && N_fx == 1 && F_p == A_v && got == v && F_d == ED.effectsModules[A_m].effectData : R_res == EAS_ERROR_INVALID_MODULE && N_fx == 0 && got == A_w, "a parameter is read from the module addressed, and a module that does not exist is refused");
    N_fx = 0; R_res = EAS_SetParameter(&ED, A_m, A_v, A_w);
    POST(ok ? R_res == R_fx && N_fx == 1 && F_p == A_v && F_v == A_w && F_d == ED.effectsModules[A_m].effectData : R_res == EAS_ERROR_INVALID_MODULE && N_fx == 0, "and set in the module addressed");
    POST(!X_bad && same_all(), "no other state changes");
    REACH();
}

/* ---------------------------------------------------------------- A02 */
//@ unit a02_open prop=A02 harness=h_open enforce=EAS_OpenFile
void h_open(void)
{
    int k, free = -1, taken = -1, n = 0; EAS_HANDLE h = NULL; EAS_RESULT want;
    INP1; INPUT(R_open); INPUT(R_chk); INPUT(A_rec); INPUT(S_fail); R_open = R_open & 1 ? EAS_FAILURE : EAS_SUCCESS; S_fail &= 1;
    for (k = 0; k < 2; k++) { R_chk[k] = R_chk[k] & 1 ? EAS_ERROR_FILE_READ_FAILED : EAS_SUCCESS; A_rec[k] &= 1; }
    ED.staticMemoryModel &= 1;
#ifdef VK_NATIVE
    if (vk_random_mode()) { if (vk_rand() & 3) R_open = 0; if (vk_rand() & 3) S_fail = 0; }
#endif
    for (k = 3; k >= 0; k--) if (ST(k)->handle == NULL) { free = k; n++; }
    if (ED.staticMemoryModel) free = ST(0)->handle == NULL ? 0 : -1;
    OE = ED;
    R_res = EAS_OpenFile(&ED, (EAS_FILE_LOCATOR) &LOC, &h);
    want = R_open != EAS_SUCCESS ? R_open : free < 0 ? EAS_ERROR_MAX_STREAMS_OPEN : R_chk[0] != EAS_SUCCESS ? R_chk[0] : A_rec[0] ? EAS_SUCCESS : S_fail ? EAS_ERROR_FILE_SEEK : R_chk[1] != EAS_SUCCESS ? R_chk[1] : A_rec[1] ? EAS_SUCCESS : EAS_ERROR_UNRECOGNIZED_FORMAT;
    POST(!X_bad && same_master(), "the file is offered to every parser from its beginning");
    POST(want == EAS_SUCCESS ? R_res == EAS_SUCCESS : R_res != EAS_SUCCESS, "opening succeeds exactly when a parser recognizes the file");
    if (want == EAS_ERROR_MAX_STREAMS_OPEN) POST(R_res == want, "no free slot is reported as such");
    if (want != EAS_SUCCESS) { POST(same_all(), "a failure takes no slot"); POST(N_fclose == (R_open == EAS_SUCCESS), "a failure closes the file again, once"); }
    else {
        for (k = 0; k < 4; k++) if (h == ST(k)) taken = k;
        POST(taken >= 0 && same_others(taken), "the handle names one slot");
        if (taken >= 0) {
            POST(OE.streams[taken].handle == NULL, "that no live stream uses");
            POST(ST(taken)->handle == (void *) &HND[3] && ST(taken)->pParserModule == (void *) &PIF[0] && ST(taken)->time == 0 && ST(taken)->frameLength == 1486 && ST(taken)->repeatCount == 0 && ST(taken)->streamFlags == 0 && ST(taken)->volume == 100, "and starts out fresh");
        }
        POST(N_fclose == 0, "the file stays open for the parser");
    }
    REACH();
}
//@ unit a02_close prop=A02 harness=h_close enforce=EAS_CloseFile cases=PT:0:1
void h_close(void)
{
    INP1; INPUT(R_close); OE = ED; R_res = EAS_CloseFile(&ED, ST(A_s));
    POST(!X_bad && same_others(A_s) && same_master(), "other streams live on");
    if (OE.streams[A_s].pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && same_all(), "only an open file can be closed");
    else POST(R_res == R_close[A_s] && N_close[A_s] == 1 && ST(A_s)->handle == NULL && ST(A_s)->pParserModule == NULL, "closing releases the slot whatever the parser reports");
    POST(N_close[0] + N_close[1] + N_close[2] + N_close[3] <= 1, "once");
    REACH();
}
//@ unit a02_prepare prop=A02 harness=h_prepare enforce=EAS_Prepare
//@ unit a02_bprepare prop=A02 harness=h_prepare enforce=EAS_Prepare defs=-DPT=1
void h_prepare(void)
{
    INP1; INPUT(R_prep); OE = ED; R_res = EAS_Prepare(&ED, ST(A_s));
    POST(!X_bad && same_others(A_s) && same_master(), "only this stream");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && !N_prep, "only a file can be prepared");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && !N_prep, "a broken stream reports its error");
    else if (P_state[A_s] != EAS_STATE_OPEN) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && !N_prep && same_all(), "only once, from the open state");
    else { POST(N_prep == 1, "the parser prepares"); if (R_prep != EAS_SUCCESS) POST(R_res == R_prep && same_all(), "a failure is reported"); }
    REACH();
}
//@ unit a02_pause prop=A02 harness=h_pause enforce=EAS_Pause cases=PT:0:1
void h_pause(void)
{
    EAS_U8 f;
    INP1; INPUT(R_pause); OE = ED; f = OE.streams[A_s].streamFlags; R_res = EAS_Pause(&ED, ST(A_s));
    POST(!X_bad && same_others(A_s) && same_master() && !N_resume, "only this stream");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && same_all(), "only a file can be paused");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && same_all() && !N_pause, "a broken stream reports its error");
    else if (P_state[A_s] != EAS_STATE_PLAY && P_state[A_s] != EAS_STATE_READY && !(f & STREAM_FLAGS_RESUME)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && same_all() && !N_pause, "a stream that does not play cannot be paused");
    else { POST(ST(A_s)->streamFlags == ((f & ~STREAM_FLAGS_RESUME) | STREAM_FLAGS_PAUSE), "it is marked as pausing"); POST(PT == 0 ? R_res == R_pause && N_pause == 1 : R_res == EAS_ERROR_NOT_IMPLEMENTED, "and the parser pauses it"); }
    REACH();
}
//@ unit a02_resume prop=A02 harness=h_resume enforce=EAS_Resume cases=PT:0:1
void h_resume(void)
{
    EAS_U8 f;
    INP1; INPUT(R_resume); OE = ED; f = OE.streams[A_s].streamFlags; R_res = EAS_Resume(&ED, ST(A_s));
    POST(!X_bad && same_others(A_s) && same_master() && !N_pause, "only this stream");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && same_all(), "only a file can be resumed");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && same_all() && !N_resume, "a broken stream reports its error");
    else if (P_state[A_s] != EAS_STATE_PAUSED && P_state[A_s] != EAS_STATE_PAUSING && !(f & STREAM_FLAGS_PAUSE)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && same_all() && !N_resume, "a stream that is not paused cannot be resumed");
    else { POST(ST(A_s)->streamFlags == ((f & ~STREAM_FLAGS_PAUSE) | STREAM_FLAGS_RESUME), "it is marked as resuming"); POST(PT == 0 ? R_res == R_resume && N_resume == 1 : R_res == EAS_ERROR_NOT_IMPLEMENTED, "and the parser resumes it"); }
    REACH();
}
//@ unit a02_state prop=A02 harness=h_state enforce=EAS_State
void h_state(void)
{
    EAS_STATE s = -1; EAS_U8 f;
    INP1; OE = ED; f = OE.streams[A_s].streamFlags; R_res = EAS_State(&ED, ST(A_s), &s);
    POST(!X_bad && same_all(), "asking changes nothing");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && s == -1, "only a file has a state");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s], "a broken stream reports its error");
    else {
        EAS_STATE e = P_state[A_s];
        if (e == EAS_STATE_STOPPED && ST(A_s)->repeatCount) e = EAS_STATE_PLAY;
        if (e == EAS_STATE_PAUSED || e == EAS_STATE_PAUSING) { if (f & STREAM_FLAGS_PAUSE) e = f & STREAM_FLAGS_LOCATE ? EAS_STATE_PAUSED : EAS_STATE_PAUSING; if (f & STREAM_FLAGS_RESUME) e = EAS_STATE_PLAY; }
        POST(R_res == EAS_SUCCESS && s == e, "the state is that of the parser; a repeating or resuming stream plays");
    }
    REACH();
}
//@ unit a02_midi prop=A02 harness=h_midi enforce=EAS_OpenMIDIStream
void h_midi(void)
{
    int k, free = -1, taken = -1, share; EAS_HANDLE h = (EAS_HANDLE) &HW; EAS_RESULT want;
    INP1; ED.staticMemoryModel &= 1; M_ok &= 1; V_fail &= 1; share = A_fail & 1;
    for (k = 0; k < 4; k++) if (ST(k)->pParserModule == NULL && ST(k)->handle) ST(k)->handle = &OM;      /* another MIDI stream */
    for (k = 3; k >= 0; k--) if (ST(k)->handle == NULL) free = k;
    if (ED.staticMemoryModel) free = ST(0)->handle == NULL ? 0 : -1;
    PRE(!share || ST(A_s)->handle != NULL);
    OE = ED;
    R_res = EAS_OpenMIDIStream(&ED, &h, share ? ST(A_s) : NULL);
    want = free < 0 ? EAS_ERROR_MAX_STREAMS_OPEN : !M_ok ? EAS_ERROR_MALLOC_FAILED : share ? (OE.streams[A_s].pParserModule == NULL ? EAS_ERROR_FEATURE_NOT_AVAILABLE : R_get != EAS_SUCCESS ? R_get : A_null ? EAS_ERROR_INVALID_HANDLE : EAS_SUCCESS) : V_fail ? EAS_ERROR_NO_VIRTUAL_SYNTHESIZER : EAS_SUCCESS;
    POST(!X_bad && same_master(), "memory and synthesizer are used properly");
    POST(R_res == want, "a stream is opened exactly when a slot, its memory and its synthesizer are there");
    if (want != EAS_SUCCESS) {
        POST(h == NULL && N_shut == 0 && N_inc == 0, "a failure gives no handle and keeps no synthesizer");
        for (k = 0; k < 4; k++) POST(ED.streams[k].handle == OE.streams[k].handle, "a failure takes no slot");
        POST(N_free == (free >= 0 && M_ok && !ED.staticMemoryModel), "a failure gives the memory back");
        POST(same_others(free), "and leaves every other stream alone");
    } else {
        for (k = 0; k < 4; k++) if (h == ST(k)) taken = k;
        POST(taken >= 0 && same_others(taken), "the handle names one slot");
        if (taken >= 0) POST(OE.streams[taken].handle == NULL && ST(taken)->handle == (void *) &MI && ST(taken)->pParserModule == NULL && ST(taken)->time == 0 && ST(taken)->streamFlags == 0 && ST(taken)->volume == 100, "that no live stream uses, started fresh");
        POST(MI.pSynth == &SY && MI.stream.sysExState == 0xee && N_inc == share && N_init == !share && !N_free, "its synthesizer is a new one, or one more use of the one shared");
    }
    REACH();
}
//@ unit a02_midiclose prop=A02 harness=h_midiclose enforce=EAS_CloseMIDIStream
void h_midiclose(void)
{
    S_SYNTH *s;
    INP1; ST(A_s)->pParserModule = NULL; ST(A_s)->handle = &MI; MI.pSynth = MI.pSynth ? &SY : NULL; s = MI.pSynth; OE = ED;
    R_res = EAS_CloseMIDIStream(&ED, ST(A_s));
    POST(!X_bad && R_res == EAS_SUCCESS && same_others(A_s) && ST(A_s)->handle == NULL, "the slot is released");
    POST(N_shut == (s != NULL) && N_free == !ED.staticMemoryModel && (!N_free || M_what == (void *) &MI), "the synthesizer and the memory are given back, once");
    REACH();
}
//@ unit a02_shutdown prop=A02 harness=h_shutdown enforce=EAS_Shutdown cases=PT:0:1
void h_shutdown(void)
{
    int k, nm = 0, fx = 0, bad = 0; S_EAS_STREAM *s;
    INP1; INPUT(R_close); INPUT(R_pes); INPUT(R_mxs); INPUT(R_fxs); INPUT(R_hws); MI.pSynth = &SY;
    for (k = 0; k < NUM_EFFECTS_MODULES; k++) { ED.effectsModules[k].effect = ED.effectsModules[k].effect ? &FXI : NULL; if (ED.effectsModules[k].effect) fx++; }
    for (k = 0; k < 4; k++) { s = ST(k); if (s->handle && !s->pParserModule) { if (nm) s->handle = NULL; nm = 1; } R_close[k] = R_close[k] & 1 ? EAS_FAILURE : 0; if (s->pParserModule && R_close[k]) bad = 1; }
    R_pes = R_pes & 1 ? EAS_FAILURE : 0; R_mxs = R_mxs & 1 ? EAS_FAILURE : 0; R_fxs = R_fxs & 1 ? EAS_FAILURE : 0; R_hws = R_hws & 1 ? EAS_FAILURE : 0;
    bad = bad || R_pes || R_mxs || R_hws || (fx && R_fxs);
    OE = ED; R_res = EAS_Shutdown(&ED);
    POST(!X_bad, "everything is given back where it came from");
    for (k = 0; k < 4; k++) POST(N_close[k] == (OE.streams[k].pParserModule != NULL), "every open file is closed once");
    POST(N_shut == nm, "every MIDI stream lets its synthesizer go");
    POST(N_pes == 1 && N_mxs == 1 && N_vms == 1 && N_hws == 1 && N_fxs == fx, "every engine and effect is shut down once");
    POST(N_free == (ED.staticMemoryModel ? 0 : 1 + nm), "all memory is given back");
    if (!OE.staticMemoryModel) POST(M_what == (void *) &ED && T_c > T_b && T_c > T_a && T_d > T_c, "the instance goes last, and the host after it");
    POST((R_res != EAS_SUCCESS) == (bad != 0), "a failure anywhere is reported");
    POST(EAS_Shutdown(NULL) == EAS_ERROR_HANDLE_INTEGRITY, "no instance, no shutdown");
    REACH();
}
//@ unit a02_dls prop=D03 harness=h_dls enforce=EAS_LoadDLSCollection cases=PT:0:1
void h_dls(void)
{
    int loaded, old;
    INP1; INPUT(R_open); INPUT(R_dls); R_open = R_open & 1 ? EAS_FAILURE : 0; R_dls = R_dls & 1 ? EAS_ERROR_INVALID_PARAMETER : 0; old = SY.pDLS != NULL; SY.pDLS = (EAS_DLSLIB_HANDLE) (old ? &DO : NULL); R_set = EAS_FAILURE;
    OE = ED; R_res = EAS_LoadDLSCollection(&ED, A_fail & 1 ? NULL : ST(A_s), (EAS_FILE_LOCATOR) &LOC);
    POST(!X_bad && same_all(), "nothing else changes");
    if (!(A_fail & 1) && !ready(A_s)) { POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && !N_open && !N_dls, "a stream that is not prepared takes no collection"); }
    else {
        loaded = R_open == EAS_SUCCESS && R_dls == EAS_SUCCESS;
        POST(N_open == 1 && N_fclose == (R_open == EAS_SUCCESS), "the file is closed again");
        if (!loaded) POST(R_res == (R_open ? R_open : R_dls) && !N_dls && !N_ref && !N_unref, "a failure to load changes nothing");
        else if (A_fail & 1) POST(R_res == R_vm && N_dls == 1 && V_a == (EAS_I32) &DL && !N_ref && !N_unref, "a global collection belongs to the engine");
        else if (!reach_synth()) POST(R_res == EAS_ERROR_INVALID_PARAMETER && N_ref == 0 && N_unref == 1, "a collection nobody takes is let go");
        else if (R_vm != EAS_SUCCESS) POST(R_res == R_vm && N_ref == 0 && N_unref == 1, "a collection refused is let go");
        else {
            POST(R_res == EAS_SUCCESS && N_ref == 1 && (N_unref & 15) == 1 && SY.pDLS == (EAS_DLSLIB_HANDLE) &DL, "the stream is the only user of a collection loaded for it");
            POST((N_unref >> 4) == old && N_av == old && N_ac == 1, "the collection it replaces is let go once, after its voices were silenced");
        }
    }
    REACH();
}
/* ---------------------------------------------------------------- A03 */
#ifdef VK_NATIVE
#define ANY(v, expr) ((v) = (expr))
#else
#define ANY(v, expr) __CPROVER_havoc_object((void *) &(v))
#endif
/* the clock of the parser: an event moves it to any later or equal time and to any state */
static EAS_U32 T0, E_end, *P_tm; static EAS_I32 A_mode; static EAS_U8 B_stop, Y_host, F_ev, F_st, F_ti, OFL;
EAS_BOOL VMCheckWorkload(S_VOICE_MGR *m) { if (m != &VM) C_fail = 1; ANY(B_stop, vk_rand() % 16 == 0); B_stop &= 1; return B_stop; }
EAS_BOOL EAS_HWYield(EAS_HW_DATA_HANDLE h) { if (h != (void *) &HW) C_fail = 1; ANY(Y_host, vk_rand() % 4 == 0); Y_host &= 1; return Y_host; }
static EAS_RESULT s_time(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_U32 *t)
{
    if (e != &ED || h != (void *) &HND[0]) C_fail = 1;
    ANY(F_ti, vk_rand() % 64 == 0); F_ti &= 1; if (F_ti) return EAS_FAILURE; *t = C_time; return EAS_SUCCESS;
}
static EAS_RESULT s_event(S_EAS_DATA *e, EAS_VOID_PTR h, EAS_INT mode)
{
    if (e != &ED || h != (void *) &HND[0] || mode != A_mode || !(C_time < (E_end >> 8)) || P_state[0] > EAS_STATE_PLAY) C_fail = 1;
    N_ev++; ANY(F_ev, vk_rand() % 64 == 0); F_ev &= 1; ANY(C_time, C_time + vk_rand() % 3); ANY(P_state[0], vk_rand() % 8 ? P_state[0] : (EAS_STATE) (vk_rand() % 9));
    if (N_ev >= 2000000000) P_state[0] = EAS_STATE_STOPPED;        /* assumed: no song has more than 2 000 000 000 events */
    return F_ev ? EAS_ERROR_FILE_FORMAT : EAS_SUCCESS;
}
static EAS_U8 *FB; static EAS_I32 N_all; static EAS_U8 DATA[64]; static EAS_U8 A_bad; static EAS_I32 K_at;
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p) { return EAS_EOF; }
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 *p) { return EAS_SUCCESS; }
/* the byte parser: takes the bytes of DATA in order */
static EAS_I32 F_n;
EAS_RESULT EAS_ParseMIDIStream(S_EAS_DATA *e, S_SYNTH *s, S_MIDI_STREAM *m, EAS_U8 c, EAS_INT mode)
{
    if (e != &ED || s != &SY || m != &MI.stream || mode != eParserModePlay || F_n >= N_all || c != DATA[F_n]) A_bad = 1;
    if (F_n == K_at) return EAS_FAILURE;
    F_n++; return EAS_SUCCESS;
}
//@ unit a03_parse prop=A03 harness=h_parse enforce=EAS_ParseEvents defs=-DPE=1 unwind=6
//@ loop[a03_parse] EAS_ParseEvents:0 locals: result, parserState, done, yieldCount, time, eventCount; assigns: result, parserState, done, yieldCount, time, eventCount, *P_tm, N_ev, F_ev, F_ti, C_time, P_state, C_fail, B_stop, Y_host, N_state, X_bad; inv: (done == 0 || (done == 1 && *P_tm == E_end && C_time >= (E_end >> 8) && P_state[0] <= 1)) && (done != 0 || *P_tm == T0)
//@ inv+ && C_fail == 0 && X_bad == 0 && eventCount >= 0 && N_ev == eventCount && (A_mode != 0 || eventCount < 100000) && yieldCount >= 1 && (N_ev < 2000000000 || (P_state[0] > 1 && N_ev <= 2000000000))
void h_parse(void)
{
    EAS_U8 fl;
    INP1; INPUT(C_time); INPUT(E_end); INPUT(A_mode); A_mode &= 3; C_fail = 0; ST(0)->pParserModule = (void *) &PIF[0]; ST(0)->handle = &HND[0];
#ifdef VK_NATIVE
    if (vk_random_mode()) { E_end &= 0x7ffff; C_time = (E_end >> 8) - vk_rand() % 12; if (C_time > 0xffffffff) C_time = 0; P_state[0] &= 1; }
#endif
    PRE(P_state[0] >= 0 && P_state[0] <= EAS_STATE_EMPTY);
    P_tm = &ED.streams[0].time; T0 = *P_tm; fl = ST(0)->streamFlags; OE = ED;
    R_res = EAS_ParseEvents(&ED, ST(0), E_end, (EAS_INT) A_mode);
    POST(!C_fail && !X_bad, "events are processed one by one, up to and never beyond the clock, and none once the song has stopped");
    POST((ST(0)->streamFlags & ~STREAM_FLAGS_PARSED) == (fl & ~STREAM_FLAGS_PARSED), "no other flag changes");
    POST(same_others(0) && same_master() && ST(0)->handle == OE.streams[0].handle && ST(0)->frameLength == OE.streams[0].frameLength && ST(0)->repeatCount == OE.streams[0].repeatCount, "nothing else changes");
    if (R_res == EAS_SUCCESS) {
        if (!(ST(0)->streamFlags & STREAM_FLAGS_PARSED)) POST((B_stop || Y_host) && ST(0)->time == T0, "a parse cut short by the work limit or the host is not complete, and the clock stands");
        else if (P_state[0] > EAS_STATE_PLAY) POST(A_mode != eParserModePlay || ST(0)->time == T0, "a song that has stopped leaves the clock alone");
        else POST(ST(0)->time == E_end && C_time >= (E_end >> 8), "a complete parse moves the clock to its end, and the next event is not before it");
    } else POST(F_ev || F_ti || P_stres[0] != EAS_SUCCESS || (A_mode == eParserModePlay && N_ev >= 100000), "an error is that of the parser, or a song that never ends");
    REACH();
}
//@ unit a03_simple prop=A03 harness=h_simple enforce=EAS_ParseEvents defs=-DPT=1
void h_simple(void)
{
    EAS_U8 fl; int adv;
    INP1; INPUT(E_end); INPUT(A_mode); A_mode &= 3; C_fail = 0; A_s = 0; PRE(ST(A_s)->pParserModule != NULL); fl = ST(A_s)->streamFlags; OE = ED; T0 = ST(A_s)->time;
    R_res = EAS_ParseEvents(&ED, ST(A_s), E_end, (EAS_INT) A_mode);
    adv = P_state[A_s] >= EAS_STATE_READY && P_state[A_s] <= EAS_STATE_PAUSING;
    POST(!C_fail && !X_bad && same_others(A_s), "only this stream");
    if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && same_all(), "a broken stream reports its error");
    else POST(R_res == EAS_SUCCESS && ST(A_s)->time == T0 + (adv ? ST(A_s)->frameLength : 0) && ST(A_s)->streamFlags == (fl | STREAM_FLAGS_PARSED), "a parser without a clock advances by one block while it plays");
    REACH();
}
//@ unit a03_location prop=A03 harness=h_location enforce=EAS_GetLocation
void h_location(void)
{
    EAS_I32 t;
    INP1; t = A_w; OE = ED; R_res = EAS_GetLocation(&ED, ST(A_s), &t);
    POST(!X_bad && same_all(), "asking changes nothing");
    if (!ready(A_s)) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && t == A_w, "a stream that is not prepared has no location");
    else POST(R_res == EAS_SUCCESS && t == (EAS_I32) (ST(A_s)->time / 256), "the location is the clock in milliseconds");
    R_res = EAS_GetRenderTime(&ED, &t); POST(R_res == EAS_SUCCESS && t == (EAS_I32) (ED.renderTime / 256) && same_all(), "and so is the time rendered");
    REACH();
}
/* parsing of one stream in a block, as a03_parse and a03_simple describe it */
static EAS_U8 PE_n[4], PE_fail[4], PE_short[4]; static EAS_U32 PE_end[4]; static EAS_STATE PE_st[4];
EAS_RESULT c_parse(S_EAS_DATA *e, S_EAS_STREAM *s, EAS_U32 end, EAS_INT mode)
{
    int k, j = -1; for (k = 0; k < 4; k++) if (s == &ED.streams[k]) j = k;
    if (e != &ED || j < 0 || T_a == 0 || T_b) { X_bad = 1; return EAS_FAILURE; }
    PE_n[j]++; PE_end[j] = end; C_mode = (EAS_U8) mode;
    s->streamFlags &= ~STREAM_FLAGS_PARSED;
    if (PE_fail[j]) return EAS_ERROR_FILE_FORMAT;
    P_state[j] = PE_st[j];
    if (!PE_short[j]) { s->time = end; s->streamFlags |= STREAM_FLAGS_PARSED; }
    return EAS_SUCCESS;
}
static EAS_I32 A_n;
//@ unit a03_render prop=A03,A02 harness=h_render enforce=EAS_Render replace=EAS_ParseEvents:c_parse native=sub inline=0 timeout=400
void h_render(void)
{
    int k, stop = 4, err = 0, j; EAS_I32 got = 77; EAS_U8 fl;
    INP1; INPUT(PE_fail); INPUT(PE_short); INPUT(PE_st); INPUT(A_n); INPUT(R_vmr); INPUT(R_per); R_vmr &= 1; R_per &= 1; INPUT(R_reset); R_reset = R_reset & 1 ? EAS_FAILURE : 0;
    for (k = 0; k < 4; k++) { PE_fail[k] &= 1; PE_short[k] &= 1; PE_n[k] = 0; PRE(PE_st[k] >= 0 && PE_st[k] <= EAS_STATE_EMPTY); if (ST(k)->handle == (void *) &MI) ST(k)->handle = NULL; }
    C_mode = 77; OE = ED;
    R_res = EAS_Render(&ED, OUTB, A_n, &got);
    POST(same_master() && ED.pVoiceMgr == &VM && !X_bad, "the engine is used as it should be");
    if (A_n != 256) POST(R_res == EAS_BUFFER_SIZE_MISMATCH && got == 0 && same_all() && !N_vmr && !N_mp && !N_mq, "only whole blocks can be asked for");
    else {
        POST(R_res == EAS_SUCCESS || got == 0, "a failure produces nothing");
        if (got != 0) {
            POST(got == 256 && N_vmr == 1 && N_pe == 1 && N_mp == 1 && N_mq == 1 && T_a < T_b && T_b < T_c && T_c < T_d, "a block is prepared, parsed, rendered and mixed, once each and in this order");
            POST(ED.pOutputAudioBuffer == OUTB && ED.renderTime == OE.renderTime + 1486, "it goes to the buffer given, and the time rendered advances by one block");
            for (k = 0; k < 4; k++) {
                if (OE.streams[k].pParserModule == NULL) POST(PE_n[k] == 0 && ST(k)->time == OE.streams[k].time, "an empty slot plays nothing");
                else {
                    fl = OE.streams[k].streamFlags;
                    POST(PE_n[k] == !(fl & STREAM_FLAGS_PARSED), "every open stream is parsed once, unless that was done already");
                    if (PE_n[k]) POST(PE_end[k] == OE.streams[k].time + OE.streams[k].frameLength && C_mode == eParserModePlay, "for one block of its own clock");
                    POST(!(ST(k)->streamFlags & STREAM_FLAGS_PARSED), "and parsed again for the next one");
                    POST(ST(k)->frameLength == OE.streams[k].frameLength, "the rate does not change");
                    if (OE.streams[k].repeatCount == 0 || P_state[k] != EAS_STATE_STOPPED) POST(ST(k)->repeatCount == OE.streams[k].repeatCount, "the repeat count stays while it plays");
                    else { POST(ST(k)->repeatCount == (OE.streams[k].repeatCount > 0 ? OE.streams[k].repeatCount - 1 : OE.streams[k].repeatCount) && ST(k)->time == 0, "a song that has ended starts again, one repeat less"); }
                }
            }
        } else POST(ED.renderTime == OE.renderTime && N_mq == 0, "no audio, no time");
        for (k = 0, j = 0; k < 4; k++) if (ST(k)->pParserModule && OE.streams[k].repeatCount && P_state[k] == EAS_STATE_STOPPED && P_stres[k] == EAS_SUCCESS) j++;
        if (got != 0) POST(N_reset == j, "only songs that repeat are started again");
    }
    REACH();
}
//@ unit a03_write prop=A02 harness=h_write enforce=EAS_WriteMIDIStream
//@ loop[a03_write] EAS_WriteMIDIStream:0 locals: result, pBuffer, count; assigns: result, pBuffer, count, F_n, A_bad; inv: count >= 0 && count <= N_all && F_n == N_all - count && pBuffer == DATA + F_n && A_bad == 0 && (K_at < 0 || F_n <= K_at)
void h_write(void)
{
    INP1; INPUT(DATA); INPUT(N_all); INPUT(K_at);
#ifdef VK_NATIVE
    if (vk_random_mode()) { N_all = (EAS_I32) (vk_rand() % 66) - 1; K_at = (EAS_I32) (vk_rand() % 80) - 1; }
#endif
    PRE(N_all <= 64 && K_at >= -1); MI.pSynth = &SY; ST(A_s)->pParserModule = NULL; ST(A_s)->handle = &MI; F_n = 0; A_bad = 0; OE = ED;
    R_res = EAS_WriteMIDIStream(&ED, ST(A_s), DATA, N_all);
    POST(!A_bad && same_all(), "every byte in order, to this stream's parser and synthesizer, playing");
    if (N_all <= 0) POST(R_res == EAS_ERROR_PARAMETER_RANGE && F_n == 0, "nothing is not a message");
    else if (K_at >= 0 && K_at < N_all) POST(R_res == EAS_FAILURE && F_n == K_at, "an error stops there");
    else POST(R_res == EAS_SUCCESS && F_n == N_all, "and every byte");
    REACH();
}
static EAS_U8 PS_n, PS_fail; static EAS_U32 PS_end; static EAS_INT PS_mode; static EAS_U32 PS_t0, PS_to;
EAS_RESULT c_parse_to(S_EAS_DATA *e, S_EAS_STREAM *s, EAS_U32 end, EAS_INT mode) { ed(e); if (s != ST(A_s)) X_bad = 1; PS_n++; PS_end = end; PS_mode = mode; PS_t0 = s->time; if (PS_fail) return EAS_ERROR_FILE_FORMAT; s->time = PS_to; s->streamFlags |= STREAM_FLAGS_PARSED; return EAS_SUCCESS; }
//@ unit a02_locate prop=A02,A03 harness=h_locate enforce=EAS_Locate replace=EAS_ParseEvents:c_parse_to native=sub inline=0
//@ unit a02_blocate prop=A02,A03 harness=h_locate enforce=EAS_Locate replace=EAS_ParseEvents:c_parse_to native=sub inline=0 defs=-DPT=1
void h_locate(void)
{
    EAS_I32 to; EAS_U32 now; EAS_U8 fl; int rewinds;
    INP1; INPUT(R_loc); INPUT(P_own); INPUT(R_reset); INPUT(PS_fail); INPUT(PS_to); PS_fail &= 1; P_own &= 1; R_reset = R_reset & 1 ? EAS_FAILURE : 0; R_loc = R_loc & 1 ? EAS_FAILURE : 0; PS_n = 0;
    PRE(ST(A_s)->time <= 0xffffffff && A_v > -0x80000000L && A_v < 0x80000000L); OE = ED; now = ST(A_s)->time; fl = ST(A_s)->streamFlags;
    to = A_v + (A_w & 1 ? (EAS_I32) (now / 256) : 0); if (to < 0) to = 0;
    R_res = EAS_Locate(&ED, ST(A_s), A_v, (EAS_BOOL) (A_w & 1));
    POST(!X_bad && same_others(A_s) && same_master(), "only this stream");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && same_all(), "only a file can be located");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && same_all() && !N_reset && !PS_n, "a broken stream reports its error");
    else if (P_state[A_s] >= EAS_STATE_OPEN) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && same_all() && !N_reset && !PS_n, "a stream that is not prepared cannot be located");
    else if (to == (EAS_I32) (now / 256)) POST(R_res == EAS_SUCCESS && same_all() && !N_reset && !N_loc, "being there already is no move");
    else {
        POST((ST(A_s)->streamFlags & STREAM_FLAGS_LOCATE) && ((ST(A_s)->streamFlags ^ fl) & ~(STREAM_FLAGS_LOCATE | STREAM_FLAGS_PAUSE | STREAM_FLAGS_PARSED)) == 0, "the move is marked");
        rewinds = PT == 1 || P_own;
        if (PT == 0) POST(N_loc == 1 && L_time == to, "a parser that can locate is asked, for the position limited to the start");
        if (!rewinds) POST(R_res == R_loc && ST(A_s)->time == (R_loc == EAS_SUCCESS ? (EAS_U32) to * 256 : now) && !N_reset && !PS_n, "and the clock follows it");
        else {
            POST(N_reset == 1, "otherwise the song starts from its beginning");
            if (R_reset != EAS_SUCCESS) POST(R_res == R_reset && !PS_n, "a failure is reported");
            else POST(PS_n == 1 && PS_t0 == 0 && PS_end == (EAS_U32) to * 256 && PS_mode == eParserModeLocate && (R_res != EAS_SUCCESS) == PS_fail, "and is parsed silently up to the position");
            if (P_state[A_s] == EAS_STATE_PAUSED || P_state[A_s] == EAS_STATE_PAUSING) POST((fl & STREAM_FLAGS_RESUME) || (ST(A_s)->streamFlags & STREAM_FLAGS_PAUSE), "a paused song stays paused");
            else POST((ST(A_s)->streamFlags & STREAM_FLAGS_PAUSE) == (fl & STREAM_FLAGS_PAUSE), "a playing song is not paused");
        }
    }
    REACH();
}
//@ unit a02_meta prop=A02 harness=h_meta enforce=EAS_ParseMetaData replace=EAS_ParseEvents:c_parse_to native=sub inline=0
//@ unit a02_bmeta prop=A02 harness=h_meta enforce=EAS_ParseMetaData replace=EAS_ParseEvents:c_parse_to native=sub inline=0 defs=-DPT=1
void h_meta(void)
{
    EAS_I32 len;
    INP1; INPUT(R_meta); INPUT(R_reset); INPUT(PS_fail); INPUT(PS_to); PS_fail &= 1; R_reset = R_reset & 1 ? EAS_FAILURE : 0; R_meta = R_meta & 1 ? EAS_FAILURE : 0; PS_n = 0; len = A_w; OE = ED;
    R_res = EAS_ParseMetaData(&ED, ST(A_s), &len);
    POST(!X_bad && same_others(A_s) && same_master(), "only this stream");
    if (ST(A_s)->pParserModule == NULL) POST(R_res == EAS_ERROR_FEATURE_NOT_AVAILABLE && same_all(), "only a file has a length");
    else if (P_stres[A_s] != EAS_SUCCESS) POST(R_res == P_stres[A_s] && same_all() && !N_reset, "a broken stream reports its error");
    else if (P_state[A_s] >= EAS_STATE_OPEN) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && same_all() && !N_reset, "a stream that is not prepared has no length");
    else if (PT == 0) POST(R_res == R_meta && N_meta == 1 && len == P_other && same_all(), "a parser that knows its length is asked");
    else if (R_res == EAS_SUCCESS) { POST(N_reset == 2 && PS_n == 1 && PS_t0 == 0 && PS_mode == eParserModeMetaData && PS_end == 0x7fffffff, "the song is scanned from its beginning to its end, silently"); POST(len == (EAS_I32) (PS_to / 256) && ST(A_s)->time == 0, "its length is the time at its end, and it is back at its beginning"); }
    else POST(R_reset != EAS_SUCCESS || PS_fail, "an error is that of the parser");
    REACH();
}
