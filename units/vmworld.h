/* Common world for the voice-manager contracts: one voice manager, up to four
 * live virtual synthesizers, a recording implementation of the synthesizer
 * interface (its functions are under contract in wt_*.c units). */
#ifndef VMWORLD_H
#define VMWORLD_H
#include "kit.h"
#include "eas.h"
#include "eas_data.h"
#include "eas_config.h"
#include "eas_report.h"
#include "eas_host.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#include "eas_mdls.h"
#include "eas_midictrl.h"
unsigned vk_rand(void);
int vk_random_mode(void);

static S_VOICE_MGR VM;
static S_SYNTH S0, S1, S2, S3;
static EAS_U8 LIVE, A_SYN;           /* live synthesizers (bit mask); the acting one */
static S_VOICE_MGR OVM;              /* copies taken before the call */
#define OV OVM.voices
static S_SYNTH O0, O1, O2, O3;
static EAS_I32 O_workload; static EAS_U16 O_active, O_age, O_maxpoly;
static struct {
    EAS_U8 rel[MAX_SYNTH_VOICES], mute[MAX_SYNTH_VOICES], sus[MAX_SYNTH_VOICES], start[MAX_SYNTH_VOICES], upd[MAX_SYNTH_VOICES];
    EAS_U16 startRegion;
    EAS_U8 bad;
} REC;
static struct { EAS_U8 rel[MAX_SYNTH_VOICES], mute[MAX_SYNTH_VOICES], sus[MAX_SYNTH_VOICES], start[MAX_SYNTH_VOICES], upd[MAX_SYNTH_VOICES]; } EREC;   /* expected calls */
static struct { EAS_U8 calls, n, ch, note, vel; EAS_U16 region; } ST;
static EAS_U8 SUSOK[MAX_SYNTH_VOICES];     /* does the envelope still allow re-catching this voice? */

/* --------------------------------------------------- interface contract --- */
static EAS_RESULT st_init(S_VOICE_MGR *m) { return EAS_SUCCESS; }
static EAS_RESULT st_start(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_U16 r)
{
    if (n < 0 || n >= MAX_SYNTH_VOICES || m != &VM || v != &VM.voices[n] || v->channel >= 64 || s != VM.pSynth[v->channel >> 4]) { REC.bad = 1; return 0; }
    REC.start[n]++; REC.startRegion = r;
    v->regionIndex = r; v->voiceFlags = VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET; v->gain = 0;
    return EAS_SUCCESS;
}
static EAS_U8 UPD_done[MAX_SYNTH_VOICES]; static EAS_I16 UPD_gain[MAX_SYNTH_VOICES];
static EAS_BOOL st_update(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n, EAS_I32 *mix, EAS_I32 num)
{
    if (n < 0 || n >= MAX_SYNTH_VOICES || m != &VM || v != &VM.voices[n] || v->channel >= 64 || s != VM.pSynth[v->channel >> 4] || s == NULL) { REC.bad = 1; return 0; }
    REC.upd[n]++;
    v->voiceFlags &= ~VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET; v->gain = UPD_gain[n];
    return UPD_done[n] ? EAS_TRUE : EAS_FALSE;
}
static void st_release(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n)
{
    if (n < 0 || n >= MAX_SYNTH_VOICES || m != &VM || v != &VM.voices[n] || v->channel >= 64 || s != VM.pSynth[v->channel >> 4]) { REC.bad = 1; return; }
    REC.rel[n]++;
}
static void st_mute(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, EAS_I32 n)
{
    if (n < 0 || n >= MAX_SYNTH_VOICES || m != &VM || v != &VM.voices[n] || v->channel >= 64 || s != VM.pSynth[v->channel >> 4]) { REC.bad = 1; return; }
    REC.mute[n]++;
    v->voiceFlags &= ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE);
}
static void st_sustain(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v, S_SYNTH_CHANNEL *c, EAS_I32 n)
{
    if (n < 0 || n >= MAX_SYNTH_VOICES || m != &VM || v != &VM.voices[n] || v->channel >= 64 || s != VM.pSynth[v->channel >> 4]
        || c != &s->channels[v->channel & 15]) { REC.bad = 1; return; }
    REC.sus[n]++;
    if (SUSOK[n]) { v->voiceState = eVoiceStatePlay; v->voiceFlags |= VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF; }
}
static EAS_U16 UC_mask; static EAS_U8 UC_count;
static void st_updch(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch) { UC_count++; if (ch < 16) UC_mask |= 1u << ch; else REC.bad = 1; }
const S_SYNTH_INTERFACE wtSynth = { st_init, st_start, st_update, st_release, st_mute, st_sustain, st_updch };

S_EAS easSoundLib;
/* ------------------------------------------------------------- world ------ */
static S_SYNTH *SY(unsigned k) { return k == 0 ? &S0 : k == 1 ? &S1 : k == 2 ? &S2 : &S3; }
static S_SYNTH *OSY(unsigned k) { return k == 0 ? &O0 : k == 1 ? &O1 : k == 2 ? &O2 : &O3; }
#ifdef VK_NATIVE
static void rnd_synth(S_SYNTH *s)
{
    unsigned c;
    for (c = 0; c < 16; c++) { s->channels[c].pool = vk_rand() & 15; s->poolCount[c] = vk_rand() % 20; s->poolAlloc[c] = vk_rand() % 40; }
    s->priority = vk_rand() % 16;
    s->maxPolyphony = vk_rand() % 3 ? vk_rand() % 65 : 0;
    s->numActiveVoices = vk_rand() % 65;
    if (vk_rand() & 1) s->synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON;
}
/* random worlds: few channels and keys so that the interesting cases meet */
static void rnd_world(void)
{
    unsigned i;
    if (!vk_random_mode()) return;
    LIVE = 1 + vk_rand() % 15;
#ifdef LIVEM
    LIVE = LIVEM;
#endif
#ifdef ASYN
    A_SYN = ASYN; LIVE |= 1 << ASYN;
#else
    do A_SYN = vk_rand() & 3; while (!(LIVE >> A_SYN & 1));
#endif
    rnd_synth(&S0); rnd_synth(&S1); rnd_synth(&S2); rnd_synth(&S3);
    unsigned dense = vk_rand() % 4;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *v = &VM.voices[i];
        unsigned k;
        v->voiceState = vk_rand() % 6;
        if (dense == 0 && vk_rand() % 3) v->voiceState = 0;
        if (dense == 1 && v->voiceState == 0) v->voiceState = 2;
        v->voiceFlags &= 0x4f;
        if (vk_rand() & 1) v->voiceFlags &= ~VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET;
        do k = vk_rand() & 3; while (!(LIVE >> k & 1));
        v->channel = k << 4 | (vk_rand() % 3 ? vk_rand() % 3 : 9);
        do k = vk_rand() & 3; while (!(LIVE >> k & 1));
        v->nextChannel = k << 4 | (vk_rand() % 3 ? vk_rand() % 3 : 9);
        v->note = 0x68 + vk_rand() % 3; v->nextNote = 0x68 + vk_rand() % 3;
        v->velocity &= 127; v->nextVelocity &= 127;
        if (v->gain < 0) v->gain = -1 - v->gain;
        if (vk_rand() % 4 == 0) v->gain = 0;
        if (v->voiceState != eVoiceStateStolen) v->nextChannel = 16;
        else v->voiceFlags &= ~VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF;
        if (v->voiceState == eVoiceStateFree) { v->channel = 16; v->note = v->nextNote = 0x69; v->voiceFlags &= 2; }
    }
    VM.workload = vk_rand() & 0xffff;
    VM.activeVoices = vk_rand() % 65;
    VM.maxPolyphony = 1 + vk_rand() % 64;
}
#else
#define rnd_world()
#endif

/* focused units: one voice number is worked on (FN); for the rest an arbitrary witness stands for every other voice */
#ifdef VK_NATIVE
#define FOCUS 0
static unsigned FN; static S_SYNTH_VOICE OVN, OW;
#else
static int FOCUS; static unsigned FN, WITNESS; static S_SYNTH_VOICE OVN, OW;
#endif
SPEC_BEGIN
#define live(k) (LIVE >> (k) & 1)
static int chan_ok(EAS_U8 c) { return c < 64 && live(c >> 4); }
static int wf_voice(const S_SYNTH_VOICE *v)
{
    if (v->voiceState > eVoiceStateStolen) return 0;
    if (v->voiceState == eVoiceStateFree)
        return v->channel == UNASSIGNED_SYNTH_CHANNEL && v->nextChannel == UNASSIGNED_SYNTH_CHANNEL && v->note == DEFAULT_KEY_NUMBER
            && !(v->voiceFlags & ~VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF);
    if (!chan_ok(v->channel)) return 0;
    if (v->voiceState == eVoiceStateStolen)
        return chan_ok(v->nextChannel) && !(v->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF);
    return 1;
}
static int wf_voices(void) { unsigned i; int ok = 1; for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= wf_voice(&VM.voices[i]); return ok; }
static int wf_synth(const S_SYNTH *s) { unsigned c; int ok = 1; for (c = 0; c < 16; c++) ok &= s->channels[c].pool < 16; return ok; }
static int wf_world(void)
{
    return LIVE < 16 && A_SYN < 4 && live(A_SYN) && wf_voices() && wf_synth(&S0) && wf_synth(&S1) && wf_synth(&S2) && wf_synth(&S3)
        && VM.workload >= 0 && VM.workload < 0x40000000;
}
#ifndef VK_NATIVE
static int wf_world1(void)
{
    return LIVE < 16 && A_SYN < 4 && live(A_SYN) && wf_voice(&VM.voices[FN]) && wf_voice(&VM.voices[WITNESS]) && wf_synth(&S0) && wf_synth(&S1) && wf_synth(&S2) && wf_synth(&S3)
        && VM.workload >= 0 && VM.workload < 0x40000000;
}
#endif
/* ---- observations */
static int ch_eq(const S_SYNTH_CHANNEL *a, const S_SYNTH_CHANNEL *b)
{
    return a->staticPitch == b->staticPitch && a->staticGain == b->staticGain && a->regionIndex == b->regionIndex && a->bankNum == b->bankNum
        && a->pitchBend == b->pitchBend && a->pitchBendSensitivity == b->pitchBendSensitivity && a->registeredParam == b->registeredParam
        && a->programNum == b->programNum && a->modWheel == b->modWheel && a->volume == b->volume && a->pan == b->pan && a->expression == b->expression
        && a->finePitch == b->finePitch && a->coarsePitch == b->coarsePitch && a->channelPressure == b->channelPressure
        && a->channelFlags == b->channelFlags && a->pool == b->pool && a->mip == b->mip;
}
static int chans_eq(const S_SYNTH *a, const S_SYNTH *b) { unsigned c; int ok = 1; for (c = 0; c < 16; c++) ok &= ch_eq(&a->channels[c], &b->channels[c]); return ok; }
static int pools_eq(const S_SYNTH *a, const S_SYNTH *b)
{ unsigned c; int ok = 1; for (c = 0; c < 16; c++) ok &= a->poolCount[c] == b->poolCount[c] && a->poolAlloc[c] == b->poolAlloc[c]; return ok; }
/* everything except channels, synthFlags, numActiveVoices, poolCount, totalNoteCount */
static int syn_rest_eq(const S_SYNTH *a, const S_SYNTH *b)
{
    return a->maxPolyphony == b->maxPolyphony && a->masterVolume == b->masterVolume && a->globalTranspose == b->globalTranspose
        && a->vSynthNum == b->vSynthNum && a->refCount == b->refCount && a->priority == b->priority && a->pEAS == b->pEAS && a->pDLS == b->pDLS;
}
static int syn_eq(const S_SYNTH *a, const S_SYNTH *b)
{
    return syn_rest_eq(a, b) && chans_eq(a, b) && pools_eq(a, b) && a->synthFlags == b->synthFlags && a->numActiveVoices == b->numActiveVoices
        && a->totalNoteCount == b->totalNoteCount;
}
static int voice_eq(const S_SYNTH_VOICE *a, const S_SYNTH_VOICE *b)
{
    return a->regionIndex == b->regionIndex && a->gain == b->gain && a->age == b->age && a->nextRegionIndex == b->nextRegionIndex
        && a->voiceState == b->voiceState && a->voiceFlags == b->voiceFlags && a->channel == b->channel && a->note == b->note
        && a->velocity == b->velocity && a->nextChannel == b->nextChannel && a->nextNote == b->nextNote && a->nextVelocity == b->nextVelocity;
}
/* equal up to state, flags (age and gain included) */
static int voice_rest_eq(const S_SYNTH_VOICE *a, const S_SYNTH_VOICE *b)
{
    return a->regionIndex == b->regionIndex && a->gain == b->gain && a->age == b->age && a->nextRegionIndex == b->nextRegionIndex
        && a->channel == b->channel && a->note == b->note
        && a->velocity == b->velocity && a->nextChannel == b->nextChannel && a->nextNote == b->nextNote && a->nextVelocity == b->nextVelocity;
}
static int nocall(unsigned i) { return REC.rel[i] == 0 && REC.mute[i] == 0 && REC.sus[i] == 0 && REC.start[i] == 0; }
static int untouched(unsigned i) { return voice_eq(&VM.voices[i], &OV[i]) && nocall(i); }
static int vm_rest_eq(void) { return VM.activeVoices == O_active && VM.age == O_age && VM.maxPolyphony == O_maxpoly; }
/* pool a counted voice belongs to */
static EAS_U8 eff_ch(const S_SYNTH_VOICE *v) { return v->voiceState == eVoiceStateStolen ? v->nextChannel : v->channel; }
static int counted(const S_SYNTH_VOICE *v) { return v->voiceState != eVoiceStateFree && v->voiceState != eVoiceStateMuting; }
/* "for every voice": the verifier proves it for one arbitrary voice number, a native run tries them all */
#ifdef VK_NATIVE
#define FORV(P) do { unsigned i; int ok = 1; for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= (P(i)); return ok; } while (0)
#else
#define FORV(P) do { unsigned i; int ok = 1; if (FOCUS) return P(WITNESS); for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= (P(i)); return ok; } while (0)
#endif
static int rec_eq1(unsigned i) { return REC.rel[i] == EREC.rel[i] && REC.mute[i] == EREC.mute[i] && REC.sus[i] == EREC.sus[i] && REC.start[i] == EREC.start[i] && REC.upd[i] == EREC.upd[i]; }
static int voice_eq1(unsigned i)
{
    if (FOCUS) return i == FN ? voice_eq(&VM.voices[i], &OVN) : voice_eq(&VM.voices[i], &OW);
    return voice_eq(&VM.voices[i], &OV[i]);
}
static int wf_voice1(unsigned i) { return wf_voice(&VM.voices[i]); }
static int recs_eq(void) { FORV(rec_eq1); }
static int rec_eq(void) { return !REC.bad && recs_eq(); }
static int voices_eq(void) { FORV(voice_eq1); }
static int wf_all(void) { FORV(wf_voice1); }
static int syns_eq(void)
{
    return syn_eq(&S0, &O0) && syn_eq(&S1, &O1) && syn_eq(&S2, &O2) && syn_eq(&S3, &O3); }
static int links_eq(void)
{
    return VM.pSynth[0] == (live(0) ? &S0 : NULL) && VM.pSynth[1] == (live(1) ? &S1 : NULL) && VM.pSynth[2] == (live(2) ? &S2 : NULL)
        && VM.pSynth[3] == (live(3) ? &S3 : NULL);
}
/* the whole engine state is the expected one (the work-load counter is a scheduling hint and not part of it) */
static int world_eq(void) { return voices_eq() && syns_eq() && links_eq() && vm_rest_eq() && rec_eq(); }
/* Contracts written as state transformers.  W = 1: on the saved copies (expected state); W = 0: on the engine itself
 * (used at the call sites of a function whose own unit proves it equal to the transformer) */
#define W_V(W, n)  ((W) ? (FOCUS ? &OVN : &OV[n]) : &VM.voices[n])
#define W_S(W, k)  ((W) ? OSY(k) : SY(k))
#define W_INC(W, f, n) do { if (W) EREC.f[n]++; else REC.f[n]++; } while (0)
/* LIGHT units: the effect of the replaced callees on the pool counts is left to the callees' own contracts; only the
 * voices they work on and the calls themselves are followed. */
#if defined(LIGHT) && !defined(VK_NATIVE) && !defined(VK_INLINED)
#define IS_LIGHT 1
#else
#define IS_LIGHT 0
#endif
static void x_pool(int W, EAS_U8 ch, int d) { if (IS_LIGHT) return; S_SYNTH *s = W_S(W, ch >> 4); s->poolCount[s->channels[ch & 15].pool] += d; }
static void x_mute(int W, unsigned n)
{
    S_SYNTH_VOICE *v = W_V(W, n);
    if (v->voiceState == eVoiceStateFree || v->voiceState == eVoiceStateMuting) return;
    x_pool(W, eff_ch(v), -1);
    W_INC(W, mute, n);
    v->voiceFlags &= ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE);
    v->voiceState = eVoiceStateMuting;
}
static void x_release(int W, unsigned n)
{
    S_SYNTH_VOICE *v = W_V(W, n);
    if (v->voiceState == eVoiceStateStart || v->voiceState == eVoiceStatePlay) { W_INC(W, rel, n); v->voiceState = eVoiceStateRelease; }
}
/* voices older than the one taken over move up one place */
static void x_age(int W, EAS_U16 age)
{
    unsigned i;
#ifndef VK_NATIVE
    if (FOCUS) {           /* only the voice worked on and the witness are ever looked at */
        S_SYNTH_VOICE *v = W ? &OVN : &VM.voices[FN], *w = W ? &OW : &VM.voices[WITNESS];
        if (age > v->age) v->age++;
        if (FN != WITNESS && age > w->age) w->age++;
        return;
    }
#endif
    for (i = 0; i < MAX_SYNTH_VOICES; i++) { S_SYNTH_VOICE *v = W_V(W, i); if (age > v->age) v->age++; }
}
static void x_stolen(int W, unsigned n, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region)
{
    S_SYNTH_VOICE *v = W_V(W, n);
    if (v->voiceState != eVoiceStateMuting) x_pool(W, eff_ch(v), -1);
    W_INC(W, mute, n);
    v->voiceFlags &= ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE);
    v->voiceState = eVoiceStateStolen;
    v->nextChannel = ch; v->nextNote = note; v->nextVelocity = vel; v->nextRegionIndex = region;
    x_pool(W, ch, 1);
    x_age(W, v->age);
    if (W) { v->age = O_age; O_age++; } else { v->age = VM.age; VM.age++; }
}
static void x_free(int W, unsigned n)
{
    S_SYNTH_VOICE *v = W_V(W, n);
    if (v->voiceState == eVoiceStateFree) return;
    if (v->voiceState != eVoiceStateMuting) x_pool(W, eff_ch(v), -1);
    if (!IS_LIGHT) { W_S(W, v->channel >> 4)->numActiveVoices--; if (W) O_active--; else VM.activeVoices--; }
    v->channel = v->nextChannel = UNASSIGNED_SYNTH_CHANNEL;
    v->note = v->nextNote = DEFAULT_KEY_NUMBER;
    v->velocity = v->nextVelocity = DEFAULT_VELOCITY;
    v->regionIndex = DEFAULT_REGION_INDEX; v->age = DEFAULT_AGE; v->voiceFlags = 0; v->voiceState = eVoiceStateFree;
}
/* a stolen voice starts its new note, or is freed when that note's channel has been muted meanwhile */
static int x_retarget(int W, unsigned n)
{
    S_SYNTH_VOICE *v = W_V(W, n);
    S_SYNTH *ns = W_S(W, v->nextChannel >> 4);
    EAS_U8 fl = v->voiceFlags;
    if ((ns->synthFlags & SYNTH_FLAG_SP_MIDI_ON) && (ns->channels[v->nextChannel & 15].channelFlags & CHANNEL_FLAG_MUTE)) { x_free(W, n); return 0; }
    if (!IS_LIGHT) { W_S(W, v->channel >> 4)->numActiveVoices--; ns->numActiveVoices++; }
    v->channel = v->nextChannel; v->nextChannel = UNASSIGNED_SYNTH_CHANNEL;
    v->note = v->nextNote; v->velocity = v->nextVelocity; v->regionIndex = v->nextRegionIndex;
    v->voiceState = eVoiceStateStart;
    W_INC(W, start, n);
    v->voiceFlags = VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET; v->gain = 0;
    if (fl & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) { v->voiceFlags |= VOICE_FLAG_DEFER_MIDI_NOTE_OFF; if (!IS_LIGHT) ns->synthFlags |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING; }
    return 1;
}
SPEC_END
/* call-site versions */
#define C_NUM(n) PROVE((n) >= 0 && (n) < MAX_SYNTH_VOICES, "callee precondition: voice number")
void c_mute(S_VOICE_MGR *m, EAS_I32 n) { C_NUM(n); PROVE(m == &VM, "callee precondition: voice manager"); x_mute(0, (unsigned) n); }
void c_release(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 n)
{
    C_NUM(n); PROVE(m == &VM, "callee precondition: voice manager");
    PROVE(VM.voices[n].voiceState != eVoiceStateStolen, "callee precondition: voice not stolen"); x_release(0, (unsigned) n);
}
void c_age(S_VOICE_MGR *m, EAS_U16 age) { x_age(0, age); }
void c_stolen(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 n, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region)
{
    C_NUM(n);
    PROVE(VM.voices[n].voiceState != eVoiceStateFree, "callee precondition: voice in use");
    PROVE((ch & 15) + (s->vSynthNum << 4) == (ch | s->vSynthNum << 4), "callee precondition: channel of the stream");
    x_stolen(0, (unsigned) n, (EAS_U8) (ch | s->vSynthNum << 4), note, vel, region);
}
/* recording version for callers that look for the voice: nothing happens but the call is remembered */
void c_stolen_rec(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 n, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region)
{
    C_NUM(n);
    /* "the voice is in use" follows from the caller's own postcondition (it took a candidate) */
    PROVE((ch & 15) + (s->vSynthNum << 4) == (ch | s->vSynthNum << 4), "callee precondition: channel of the stream");
    ST.calls++; ST.n = n; ST.ch = ch | s->vSynthNum << 4; ST.note = note; ST.vel = vel; ST.region = region;
}
void c_free(S_VOICE_MGR *m, S_SYNTH *s, S_SYNTH_VOICE *v)
{
    EAS_I32 n = v - VM.voices;
    C_NUM(n);
    PROVE(v->voiceState == eVoiceStateFree || s == SY(v->channel >> 4), "callee precondition: stream of the voice");
    x_free(0, (unsigned) n);
}
EAS_BOOL c_retarget(S_VOICE_MGR *m, EAS_I32 n)
{
    C_NUM(n); PROVE(VM.voices[n].voiceState == eVoiceStateStolen, "callee precondition: stolen voice");
    return x_retarget(0, (unsigned) n);
}

static void link_world(void)
{
    VM.pSynth[0] = live(0) ? &S0 : NULL; VM.pSynth[1] = live(1) ? &S1 : NULL;
    VM.pSynth[2] = live(2) ? &S2 : NULL; VM.pSynth[3] = live(3) ? &S3 : NULL;
    S0.vSynthNum = 0; S1.vSynthNum = 1; S2.vSynthNum = 2; S3.vSynthNum = 3;
    S0.pEAS = S1.pEAS = S2.pEAS = S3.pEAS = NULL; S0.pDLS = S1.pDLS = S2.pDLS = S3.pDLS = NULL;
    VM.pGlobalEAS = NULL; VM.pGlobalDLS = NULL;
}
static void save_synths(void);
static void save_world(void)
{
    OVM = VM;
    save_synths();
}
static void save_synths(void)
{
    O0 = S0; O1 = S1; O2 = S2; O3 = S3;
    O_workload = VM.workload; O_active = VM.activeVoices; O_age = VM.age; O_maxpoly = VM.maxPolyphony;
}
static void zrec(void)
{
    unsigned i;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) { REC.rel[i] = 0; REC.mute[i] = 0; REC.sus[i] = 0; REC.start[i] = REC.upd[i] = 0; }
    for (i = 0; i < MAX_SYNTH_VOICES; i++) { EREC.rel[i] = 0; EREC.mute[i] = 0; EREC.sus[i] = 0; EREC.start[i] = EREC.upd[i] = 0; }
    REC.startRegion = 0; REC.bad = 0; UC_mask = 0; UC_count = 0; ST.calls = 0;
}
#define ZREC() zrec()
#ifndef LIVEM
#define FIX_LIVE() do { } while (0)
#else
#define FIX_LIVE() do { PRE(LIVE == LIVEM); LIVE = LIVEM; } while (0)
#endif
#ifndef ASYN
#define FIX_ASYN() FIX_LIVE()
#else
#define FIX_ASYN() do { FIX_LIVE(); PRE(A_SYN == ASYN); A_SYN = ASYN; } while (0)
#endif
#ifdef VK_NATIVE
#define WITNESS_IN() do { } while (0)
#else
#define WITNESS_IN() do { FOCUS = 0; INPUT(WITNESS); PRE(WITNESS < MAX_SYNTH_VOICES); } while (0)
#endif
#define WORLD() do { INPUT(VM); INPUT(S0); INPUT(S1); INPUT(S2); INPUT(S3); INPUT(LIVE); INPUT(A_SYN); INPUT(SUSOK); WITNESS_IN(); \
    rnd_world(); FIX_ASYN(); link_world(); PRE(wf_world()); save_world(); ZREC(); } while (0)
#ifdef VK_NATIVE
#define WORLD1(n) do { WORLD(); INPUT(n); if (vk_random_mode()) n = (unsigned long) n % MAX_SYNTH_VOICES; PRE((n) >= 0 && (n) < MAX_SYNTH_VOICES); } while (0)
#else
#define WORLD1(n) do { INPUT(VM); INPUT(S0); INPUT(S1); INPUT(S2); INPUT(S3); INPUT(LIVE); INPUT(A_SYN); INPUT(SUSOK); WITNESS_IN(); \
    FIX_ASYN(); link_world(); INPUT(n); PRE((n) >= 0 && (n) < MAX_SYNTH_VOICES); FOCUS = 1; FN = (n); PRE(wf_world1()); save_synths(); \
    OVN = VM.voices[n]; OW = VM.voices[WITNESS]; ZREC(); } while (0)
#endif
#define ALLW VM, S0, S1, S2, S3, REC, UC_mask, UC_count
#endif
