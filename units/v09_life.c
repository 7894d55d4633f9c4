/* V09: life of a synthesizer instance */
//@ file unwind=17 fs=20 nlink= mode=plain timeout=300 solver=cadical
#include "vmworld.h"
/* environment: allocation may fail; every call is remembered */
static S_SYNTH N0; static EAS_U8 A_occ, M_ok, M_calls, F_calls, X_bad, DC_calls, DA_calls, IC_calls, IV_calls, MV_calls, RS_calls, SEQ, DC_at, RS_at, F_at, LIB_ok; static EAS_I32 M_size;
static S_DLS GD; static S_EAS_DATA ED; static S_SYNTH *R_syn; static EAS_BOOL A_force; static EAS_RESULT R_res;
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 size) { M_calls++; M_size = size; return M_ok ? &N0 : NULL; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { F_calls++; F_at = ++SEQ; if (p != (void *) R_syn && p != (void *) &N0) X_bad = 1; }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { static const S_SYNTH z; if (s != (void *) &N0 || c != 0 || n != sizeof(S_SYNTH)) X_bad = 1; else N0 = z; return s; }
void *EAS_HWMemCpy(void *s, const void *c, EAS_I32 n) { X_bad = 1; return s; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { return m == EAS_CM_MIDI_DATA ? (void *) &N0 : NULL; }
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE h, S_DLS *d) { DC_calls++; DC_at = ++SEQ; if (d != &GD) X_bad = 1; return EAS_SUCCESS; }
void DLSAddRef(S_DLS *d) { DA_calls++; if (d != &GD) X_bad = 1; }
/* callees of this file, each with a unit of its own */
EAS_RESULT c_setlib(S_SYNTH *s, EAS_SNDLIB_HANDLE e) { if (s != &N0 || e != &easSoundLib) X_bad = 1; if (!LIB_ok) return EAS_ERROR_SOUND_LIBRARY; s->pEAS = e; return EAS_SUCCESS; }
void c_initch(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != R_syn) X_bad = 1; IC_calls++; }
void c_initv(S_VOICE_MGR *m, EAS_INT k) { if (m != &VM || k != R_syn->vSynthNum) X_bad = 1; IV_calls++; }
void c_mutev(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != R_syn) X_bad = 1; MV_calls++; }
void c_reset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL force) { if (m != &VM || s != R_syn || m->pSynth[s->vSynthNum & 3] != s || !force) X_bad = 1; RS_calls++; RS_at = ++SEQ; }
#include "eas_voicemgt.c"
#ifndef ASYN
#define ASYN 0
#endif
#define ZX() (M_calls = F_calls = X_bad = DC_calls = DA_calls = IC_calls = IV_calls = MV_calls = RS_calls = SEQ = DC_at = RS_at = F_at = 0)
static void in_synths(void) { INPUT(S0); INPUT(S1); INPUT(S2); INPUT(S3); S0.pEAS = S1.pEAS = S2.pEAS = S3.pEAS = NULL; S0.pDLS = S1.pDLS = S2.pDLS = S3.pDLS = NULL; S0.vSynthNum = 0; S1.vSynthNum = 1; S2.vSynthNum = 2; S3.vSynthNum = 3; }
static EAS_U8 W_static, W_dls;

//@ unit v09_create prop=V09 harness=h_create enforce=VMInitMIDI replace=VMSetEASLib:c_setlib,VMInitializeAllChannels:c_initch inline=0 native=sub
void h_create(void)
{
    unsigned k, slot; S_SYNTH *ps = (S_SYNTH *) &GD;
    in_synths(); INPUT(A_occ); INPUT(M_ok); INPUT(LIB_ok); INPUT(W_static); INPUT(W_dls); INPUT(O_maxpoly); INPUT(N0);
    A_occ &= 15; ZX(); R_syn = &N0;
    VM.pSynth[0] = A_occ & 1 ? &S0 : NULL; VM.pSynth[1] = A_occ & 2 ? &S1 : NULL; VM.pSynth[2] = A_occ & 4 ? &S2 : NULL; VM.pSynth[3] = A_occ & 8 ? &S3 : NULL;
    VM.pGlobalDLS = W_dls ? &GD : NULL; VM.pGlobalEAS = &easSoundLib; VM.maxPolyphony = O_maxpoly;
    ED.pVoiceMgr = &VM; ED.staticMemoryModel = W_static != 0;
    save_synths();
    R_res = VMInitMIDI(&ED, &ps);
    slot = W_static ? (A_occ & 1 ? 4 : 0) : !(A_occ & 1) ? 0 : !(A_occ & 2) ? 1 : !(A_occ & 4) ? 2 : !(A_occ & 8) ? 3 : 4;
    POST(!X_bad, "only the new instance is worked on");
    for (k = 0; k < 4; k++) if (!(slot == k && R_res == EAS_SUCCESS)) POST(VM.pSynth[k] == (A_occ >> k & 1 ? SY(k) : NULL), "no slot in use is touched");
    if (slot == 4) POST(R_res == EAS_ERROR_NO_VIRTUAL_SYNTHESIZER && M_calls == 0, "no free slot: refused");
    else if (!W_static && !M_ok) POST(R_res == EAS_ERROR_MALLOC_FAILED, "no memory: refused");
    else if (!LIB_ok) POST(R_res != EAS_SUCCESS && F_calls == !W_static, "bad sound library: refused, memory given back");
    else POST(R_res == EAS_SUCCESS, "created");
    if (R_res != EAS_SUCCESS) {
        POST(ps == NULL && DA_calls == 0 && F_calls <= 1 && (F_calls == 0 || M_calls == 1), "a failure leaves slots, memory and reference counts as they were");
    } else {
        POST(ps == &N0 && VM.pSynth[slot] == &N0 && N0.vSynthNum == slot, "the instance sits in the free slot it is told about");
        POST(N0.refCount == 1 && M_calls == !W_static && M_size == (W_static ? M_size : (EAS_I32) sizeof(S_SYNTH)) && F_calls == 0, "one user, one block of memory");
        POST(DA_calls == (W_dls != 0) && N0.pDLS == (W_dls ? &GD : NULL), "one reference to the downloaded collection");
        POST(N0.priority == DEFAULT_SYNTH_PRIORITY && N0.masterVolume == DEFAULT_SYNTH_MASTER_VOLUME && N0.poolAlloc[0] == (EAS_U8) O_maxpoly && N0.numActiveVoices == 0 && N0.maxPolyphony == 0 && N0.globalTranspose == 0 && N0.totalNoteCount == 0 && N0.synthFlags == DEFAULT_SYNTH_FLAGS && IC_calls == 1 && N0.pEAS == &easSoundLib, "the instance starts with the defaults");
    }
    POST(syns_eq(), "other instances are untouched");
    REACH();
}
//@ unit v09_destroy prop=V09 harness=h_destroy enforce=VMMIDIShutdown replace=VMReset:c_reset inline=0 native=sub cases=ASYN:0:1:2:3
void h_destroy(void)
{
    unsigned k; EAS_U8 had;
    in_synths(); INPUT(A_occ); INPUT(W_static); INPUT(W_dls); A_occ &= 15; A_occ |= 1 << ASYN; ZX(); LIVE = A_occ; R_syn = SY(ASYN);
    for (k = 0; k < 4; k++) VM.pSynth[k] = A_occ >> k & 1 ? SY(k) : NULL;
    ED.pVoiceMgr = &VM; ED.staticMemoryModel = W_static != 0; R_syn->pDLS = W_dls ? &GD : NULL; had = R_syn->refCount;
    PRE(had >= 1); save_synths();
    VMMIDIShutdown(&ED, R_syn);
    POST(!X_bad, "only this instance is worked on");
    for (k = 0; k < 4; k++) if (k != ASYN) POST(VM.pSynth[k] == (A_occ >> k & 1 ? SY(k) : NULL), "other slots are untouched");
    if (had > 1) POST(VM.pSynth[ASYN] == R_syn && R_syn->refCount == had - 1 && F_calls == 0 && DC_calls == 0 && RS_calls == 0, "other users remain: only the count drops");
    else {
        POST(VM.pSynth[ASYN] == NULL, "the slot is free again");
        POST(F_calls == !W_static && RS_calls == 1 && DC_calls == (W_dls != 0), "voices freed, memory and downloaded sounds given back exactly once");
        POST(!F_calls || (F_at > RS_at && F_at > DC_at), "the memory goes last");
    }
    REACH();
}
//@ unit v09_reset prop=V09 harness=h_reset enforce=VMReset replace=VMInitializeAllVoices:c_initv,VMMuteAllVoices:c_mutev,VMInitializeAllChannels:c_initch inline=0 native=sub cases=ASYN:0:1:2:3
void h_reset(void)
{
    unsigned i;
    in_synths(); INPUT(A_force); INPUT(O_maxpoly); ZX(); R_syn = SY(ASYN); VM.maxPolyphony = O_maxpoly; save_synths();
    VMReset(&VM, R_syn, A_force);
    POST(!X_bad, "only this instance is worked on");
    POST(A_force ? IV_calls == 1 && MV_calls == 0 : MV_calls == 1 && IV_calls == 0, "voices of the instance are freed at once, or silenced");
    S_SYNTH *o = OSY(ASYN);
    if (o->numActiveVoices == 0) {
        POST(IC_calls == 1 && !(R_syn->synthFlags & SYNTH_FLAG_RESET_IS_REQUESTED), "channels return to their defaults once no voice is left");
        for (i = 0; i < 16; i++) { POST(R_syn->poolCount[i] == 0, "no voice is counted any more"); o->poolCount[i] = 0; }
        o->poolAlloc[0] = R_syn->poolAlloc[0]; o->synthFlags &= ~SYNTH_FLAG_RESET_IS_REQUESTED;
    } else { POST(IC_calls == 0, "the channels wait for the voices"); o->synthFlags |= SYNTH_FLAG_RESET_IS_REQUESTED; }
    POST(syns_eq(), "nothing else changes");
    REACH();
}
//@ unit v09_voices prop=V09 harness=h_voices enforce=VMInitializeAllVoices replace=VMFreeVoice:c_free,VMRetargetStolenVoice:c_retarget defs=-DLIGHT,-DMAX_SYNTH_VOICES=6 kind=bounded bound=6_voices cases=ASYN:0:1:2:3
void h_voices(void)
{
    unsigned i;
    WORLD(); ZX();
    VMInitializeAllVoices(&VM, A_SYN);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *v = &OV[i];
        if (v->voiceState == eVoiceStateFree) continue;
        if ((eff_ch(v) >> 4) == A_SYN) x_free(1, i);
        else if ((v->channel >> 4) == A_SYN) x_retarget(1, i);
    }
    POST(world_eq(), "exactly the voices of the instance are freed; a voice taken from it goes to its new owner"); POST(wf_all(), "invariant");
    for (i = 0; i < MAX_SYNTH_VOICES; i++) POST(VM.voices[i].voiceState == eVoiceStateFree || ((VM.voices[i].channel >> 4) != A_SYN && (eff_ch(&VM.voices[i]) >> 4) != A_SYN), "no voice refers to the instance any more");
    REACH();
}
//@ unit v09_channels prop=V09,V06 harness=h_channels enforce=VMInitializeAllChannels replace=VMProgramChange:c_prog covers=VMResetControllers inline=0 native=sub
static EAS_U16 PC_mask; static EAS_U8 PC_calls;
void c_prog(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 prog)
{
    if (m != &VM || s != &S0 || ch > 15 || prog != DEFAULT_SYNTH_PROGRAM_NUMBER || s->channels[ch & 15].bankNum != (ch == 9 ? DEFAULT_RHYTHM_BANK_NUMBER : DEFAULT_MELODY_BANK_NUMBER)) X_bad = 1;
    PC_mask |= 1u << (ch & 15); PC_calls++;
}
void h_channels(void)
{
    unsigned c;
    in_synths(); ZX(); PC_mask = PC_calls = 0; save_synths();
    VMInitializeAllChannels(&VM, &S0);
    POST(!X_bad && PC_mask == 0xffff && PC_calls == 16, "every channel selects the default program of its bank");
    for (c = 0; c < 16; c++) {
        S_SYNTH_CHANNEL *e = &O0.channels[c];
        e->channelFlags = DEFAULT_CHANNEL_FLAGS | (c == 9 ? CHANNEL_FLAG_RHYTHM_CHANNEL : 0); e->staticGain = 0; e->staticPitch = 0; e->pool = 0;
        e->bankNum = c == 9 ? DEFAULT_RHYTHM_BANK_NUMBER : DEFAULT_MELODY_BANK_NUMBER;
        e->pitchBend = 0x2000; e->modWheel = 0; e->volume = 100; e->pan = 64; e->expression = 127; e->channelPressure = 0;
        e->registeredParam = 0x3fff; e->pitchBendSensitivity = 200; e->finePitch = 0; e->coarsePitch = 0;
    }
    POST(syns_eq(), "every controller returns to its default");
    REACH();
}
