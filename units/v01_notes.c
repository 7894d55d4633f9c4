/* V01: note-off and sustain pedal */
//@ file unwind=65 nlink= mode=plain timeout=300 cases=ASYN:0:1:2:3
//@ assume voice world: state <= Stolen; a free voice carries the unassigned channel/key; every sounding voice belongs to a live synthesizer (the invariant is proved to be preserved by each unit)
//@ assume the work-load counter stays below 2^30 (it is reset every render period)
#include "vmworld.h"
#include "vmstubs.h"

static EAS_U8 A_ch, A_note, A_vel; static EAS_I32 A_vn;
#define TAG ((EAS_U8) (A_ch | A_SYN << 4))
#define OTHERS_OK (VM.pSynth[0] == (live(0) ? &S0 : NULL) && VM.pSynth[1] == (live(1) ? &S1 : NULL) && VM.pSynth[2] == (live(2) ? &S2 : NULL) && VM.pSynth[3] == (live(3) ? &S3 : NULL))

SPEC_BEGIN
/* the channel data, pools, counters of all synths as before; pending flag of the acting one may be set */
static int post_frame(unsigned pend)
{
    unsigned k; int ok = OTHERS_OK && vm_rest_eq() && !REC.bad && wf_voices();
    for (k = 0; k < 4; k++) {
        EAS_U8 f = OSY(k)->synthFlags;
        if (k == A_SYN && pend) f |= SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING;
        ok &= syn_rest_eq(SY(k), OSY(k)) && chans_eq(SY(k), OSY(k)) && pools_eq(SY(k), OSY(k)) && SY(k)->numActiveVoices == OSY(k)->numActiveVoices
            && SY(k)->synthFlags == f;
    }
    return ok;
}
/* ---- release of one voice */
static int released(unsigned i)          /* new state of a voice that had to be released now */
{
    S_SYNTH_VOICE *n = &VM.voices[i], *o = &OV[i];
    if (o->voiceState == eVoiceStateStart || o->voiceState == eVoiceStatePlay)
        return n->voiceState == eVoiceStateRelease && n->voiceFlags == o->voiceFlags && voice_rest_eq(n, o)
            && REC.rel[i] == 1 && REC.mute[i] == 0 && REC.sus[i] == 0 && REC.start[i] == 0;
    return untouched(i);
}
static int post_stop(unsigned i)
{
    S_SYNTH_VOICE *n = &VM.voices[i], *o = &OV[i];
    EAS_U8 t = TAG;
    int pedal = OSY(A_SYN)->channels[A_ch].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL;
    if (o->voiceState == eVoiceStateFree) return n->voiceState == eVoiceStateFree && nocall(i);
    if (o->voiceState == eVoiceStateStolen) {
        if (o->nextChannel != t || o->nextNote != A_note) return untouched(i);
        return n->voiceState == o->voiceState && n->voiceFlags == (o->voiceFlags | VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && voice_rest_eq(n, o) && nocall(i);
    }
    if (o->channel != t || o->note != A_note) return untouched(i);
    if (pedal) return n->voiceState == o->voiceState && n->voiceFlags == (o->voiceFlags | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) && voice_rest_eq(n, o) && nocall(i);
    if (o->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET)
        return n->voiceState == o->voiceState && n->voiceFlags == (o->voiceFlags | VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && voice_rest_eq(n, o) && nocall(i);
    return released(i);
}
static int stop_pending(void)            /* some voice had its note-off put off until it has sounded */
{
    unsigned i; int any = 0;
    int pedal = OSY(A_SYN)->channels[A_ch].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *o = &OV[i];
        any |= o->voiceState != eVoiceStateStolen && o->channel == TAG && o->note == A_note && !pedal && (o->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET);
    }
    return any;
}
static int post_pedal_up(unsigned i)
{
    S_SYNTH_VOICE *n = &VM.voices[i], *o = &OV[i];
    if (o->voiceState == eVoiceStateFree) return n->voiceState == eVoiceStateFree && nocall(i);
    if (o->channel != TAG || !(o->voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF)) return untouched(i);
    if (n->voiceFlags != (o->voiceFlags & ~VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) || !voice_rest_eq(n, o)) return 0;
    if (o->voiceState == eVoiceStateStart || o->voiceState == eVoiceStatePlay)
        return n->voiceState == eVoiceStateRelease && REC.rel[i] == 1 && REC.mute[i] == 0 && REC.sus[i] == 0;
    return n->voiceState == o->voiceState && nocall(i);
}
static int post_pedal_down(unsigned i)
{
    S_SYNTH_VOICE *n = &VM.voices[i], *o = &OV[i];
    if (o->channel != TAG || o->voiceState != eVoiceStateRelease) return untouched(i);
    if (REC.sus[i] != 1 || REC.rel[i] || REC.mute[i] || !voice_rest_eq(n, o)) return 0;
    if (SUSOK[i]) return n->voiceState == eVoiceStatePlay && n->voiceFlags == (o->voiceFlags | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF);
    return n->voiceState == o->voiceState && n->voiceFlags == o->voiceFlags;
}
static int post_deferred(unsigned i)
{
    S_SYNTH_VOICE *n = &VM.voices[i], *o = &OV[i];
    if (!(o->voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) || o->voiceState == eVoiceStateStolen || o->voiceState == eVoiceStateFree
        || (o->channel >> 4) != A_SYN) return untouched(i);
    if (!voice_rest_eq(n, o)) return 0;
    EAS_U8 f = o->voiceFlags & ~VOICE_FLAG_DEFER_MIDI_NOTE_OFF;
    if (OSY(A_SYN)->channels[o->channel & 15].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) {
        if (REC.sus[i] != 1 || REC.mute[i]) return 0;
        if (SUSOK[i]) return n->voiceState == eVoiceStatePlay && n->voiceFlags == (f | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) && !REC.rel[i];
        if (f & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) return n->voiceState == o->voiceState && n->voiceFlags == f && !REC.rel[i];
        /* the pedal cannot hold the voice: the note-off must not get lost */
        if (o->voiceState == eVoiceStateStart || o->voiceState == eVoiceStatePlay) return n->voiceState == eVoiceStateRelease && n->voiceFlags == f && REC.rel[i] == 1;
        return n->voiceState == o->voiceState && n->voiceFlags == f && !REC.rel[i];
    }
    if (n->voiceFlags != f) return 0;
    if (o->voiceState == eVoiceStateStart || o->voiceState == eVoiceStatePlay) return n->voiceState == eVoiceStateRelease && REC.rel[i] == 1;
    return n->voiceState == o->voiceState && nocall(i);
}
#define FORALL(P) unsigned i; int ok = 1; for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= P(i); return ok
static int all_stop(void) { FORALL(post_stop); }
static int all_up(void) { FORALL(post_pedal_up); }
static int all_down(void) { FORALL(post_pedal_down); }
static int all_deferred(void) { FORALL(post_deferred); }
static int post_release(void)
{
    unsigned i; int ok = 1;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= i == (unsigned) A_vn ? released(i) : untouched(i);
    return ok;
}
static int pend_ok(void) { /* the pending mark may go away only when no note-off is waiting any more; nothing else changes */
    unsigned i, k; int own = 0, ok = OTHERS_OK && vm_rest_eq() && !REC.bad && wf_voices();
    for (i = 0; i < MAX_SYNTH_VOICES; i++) own |= (VM.voices[i].voiceFlags & VOICE_FLAG_DEFER_MIDI_NOTE_OFF) && VM.voices[i].voiceState == eVoiceStateStolen
        && (VM.voices[i].nextChannel >> 4) == A_SYN;
    for (k = 0; k < 4; k++) {
        EAS_U8 m = k == A_SYN ? (EAS_U8) ~SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING : 0xff;
        ok &= syn_rest_eq(SY(k), OSY(k)) && chans_eq(SY(k), OSY(k)) && pools_eq(SY(k), OSY(k)) && SY(k)->numActiveVoices == OSY(k)->numActiveVoices
            && (SY(k)->synthFlags & m) == (OSY(k)->synthFlags & m);
    }
    return ok && (!own || (SY(A_SYN)->synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING));
}
SPEC_END

/* ------------------------------------------------------------ contracts --- */
void VMReleaseVoice(S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 voiceNum)
REQUIRES(pVoiceMgr == &VM && voiceNum >= 0 && voiceNum < MAX_SYNTH_VOICES)
ENSURES(post_release())
ENSURES(post_frame(0))
ASSIGNS(ALLW);
void VMStopNote(S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 note, EAS_U8 velocity)
REQUIRES(pVoiceMgr == &VM && channel < 16)
ENSURES(all_stop())
ENSURES(post_frame(stop_pending()))
ASSIGNS(ALLW);
void VMReleaseAllDeferredNoteOffs(S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
REQUIRES(pVoiceMgr == &VM && channel < 16)
ENSURES(all_up())
ENSURES(post_frame(0))
ASSIGNS(ALLW);
void VMCatchNotesForSustainPedal(S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
REQUIRES(pVoiceMgr == &VM && channel < 16)
ENSURES(all_down())
ENSURES(post_frame(0))
ASSIGNS(ALLW);
void VMDeferredStopNote(S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
REQUIRES(pVoiceMgr == &VM)
ENSURES(all_deferred())
ENSURES(pend_ok())
ASSIGNS(ALLW);

/* executable contract of VMReleaseVoice used at its call sites (unit v01_release proves it) */
void spec_release(S_VOICE_MGR *m, S_SYNTH *s, EAS_I32 n)
{
    PROVE(m == &VM && n >= 0 && n < MAX_SYNTH_VOICES, "precondition of VMReleaseVoice: voice number");
    S_SYNTH_VOICE *v = &m->voices[n];
    PROVE(v->voiceState != eVoiceStateStolen, "precondition of VMReleaseVoice: voice not stolen");
    if (v->voiceState == eVoiceStateStart || v->voiceState == eVoiceStatePlay) { st_release(m, s, v, n); v->voiceState = eVoiceStateRelease; }
}
#include "eas_voicemgt.c"

//@ unit v01_release prop=V01 harness=h_rel enforce=VMReleaseVoice
void h_rel(void)
{
    WORLD(); INPUT(A_vn); PRE(A_vn >= 0 && A_vn < MAX_SYNTH_VOICES && OV[A_vn].voiceState != eVoiceStateStolen);
    PRE(OV[A_vn].voiceState == eVoiceStateFree || (OV[A_vn].channel >> 4) == A_SYN);
    VMReleaseVoice(&VM, SY(A_SYN), A_vn);
    POST(post_release(), "the voice is released once"); POST(post_frame(0), "nothing else changes");
    REACH();
}
//@ unit v01_stop prop=V01 harness=h_stop enforce=VMStopNote replace=VMReleaseVoice:spec_release
void h_stop(void)
{
    WORLD(); INPUT(A_ch); INPUT(A_note); INPUT(A_vel);
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_ch = vk_rand() % 3; A_note = 0x68 + vk_rand() % 3; }
#endif
    PRE(A_ch < 16 && A_note < 128 && A_vel < 128);
    VMStopNote(&VM, SY(A_SYN), A_ch, A_note, A_vel);
    POST(all_stop(), "note-off acts on exactly the matching voices"); POST(post_frame(stop_pending()), "nothing else changes");
    REACH();
}
//@ unit v01_pedal_up prop=V01 harness=h_up enforce=VMReleaseAllDeferredNoteOffs replace=VMReleaseVoice:spec_release
void h_up(void)
{
    WORLD(); INPUT(A_ch);
#ifdef VK_NATIVE
    if (vk_random_mode()) A_ch = vk_rand() % 3;
#endif
    PRE(A_ch < 16);
    VMReleaseAllDeferredNoteOffs(&VM, SY(A_SYN), A_ch);
    POST(all_up(), "pedal up releases exactly the held notes of the channel"); POST(post_frame(0), "nothing else changes");
    REACH();
}
//@ unit v01_pedal_down prop=V01 harness=h_down enforce=VMCatchNotesForSustainPedal
void h_down(void)
{
    WORLD(); INPUT(A_ch);
#ifdef VK_NATIVE
    if (vk_random_mode()) A_ch = vk_rand() % 3;
#endif
    PRE(A_ch < 16);
    VMCatchNotesForSustainPedal(&VM, SY(A_SYN), A_ch);
    POST(all_down(), "pedal down re-catches exactly the releasing notes of the channel"); POST(post_frame(0), "nothing else changes");
    REACH();
}
//@ unit v01_deferred prop=V01 harness=h_def enforce=VMDeferredStopNote replace=VMReleaseVoice:spec_release
void h_def(void)
{
    WORLD();
    PRE(SY(A_SYN)->synthFlags & SYNTH_FLAG_DEFERRED_MIDI_NOTE_OFF_PENDING);
    VMDeferredStopNote(&VM, SY(A_SYN));
    POST(all_deferred(), "put-off note-offs take effect once"); POST(pend_ok(), "pending mark");
    REACH();
}
