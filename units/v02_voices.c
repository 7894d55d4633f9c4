/* V02: taking and giving back voices */
//@ file unwind=65 nlink= mode=plain timeout=300 solver=cadical
//@ assume voice world: state <= Stolen; a free voice carries the unassigned channel/key; every sounding voice belongs to a live synthesizer (the invariant is proved to be preserved by each unit)
//@ assume the work-load counter stays below 2^30 (it is reset every render period)
#include "vmworld.h"
#include "vmstubs.h"
static EAS_U8 A_ch, A_note, A_vel; static EAS_I32 A_vn, A_lo, A_hi; static EAS_U16 A_reg, A_kg, A_age;
#define OLD1(n) VM.voices[n]      /* before the call */
#define TAG ((EAS_U8) (A_ch | A_SYN << 4))
/* region table: region r has key group (r + KOFF) mod 16, so every key group assignment of the voices is covered */
static S_WT_REGION WTR[16]; static S_DLS_REGION DREG[16]; static S_EAS LIBX; static S_DLS DLSX; static EAS_U8 KOFF;
static EAS_U8 WFL[16], DFL[16];
#define KG(r) ((EAS_U16) ((((r) & 15) + KOFF & 15) << 8))
static void regions(void)
{
    unsigned i;
    INPUT(KOFF); INPUT(WFL); INPUT(DFL);
    for (i = 0; i < 16; i++) { WTR[i].region.keyGroupAndFlags = KG(i) | WFL[i]; DREG[i].wtRegion.region.keyGroupAndFlags = KG(i) | DFL[i]; }
    LIBX.pWTRegions = WTR; DLSX.pDLSRegions = DREG;
    S0.pEAS = S1.pEAS = S2.pEAS = S3.pEAS = &LIBX;
    S0.pDLS = S1.pDLS = S2.pDLS = S3.pDLS = &DLSX;
    save_world();
}
#include "eas_voicemgt.c"

//@ unit v02_mute prop=V02 harness=h_mute enforce=VMMuteVoice solver=z3
void h_mute(void)
{
    WORLD1(A_vn);
    VMMuteVoice(&VM, A_vn);
    x_mute(1, A_vn);
    POST(world_eq(), "the voice is silenced once and leaves its pool; nothing else changes"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_age prop=V02 harness=h_age enforce=VMUpdateAllNotesAge solver=cadical
void h_age(void)
{
    WORLD(); INPUT(A_age);
    VMUpdateAllNotesAge(&VM, A_age);
    x_age(1, A_age);
    POST(world_eq(), "exactly the voices younger than the given age move up one place");
    REACH();
}
//@ unit v02_stolen prop=V02 harness=h_stolen enforce=VMStolenVoice replace=VMUpdateAllNotesAge:c_age covers=IncVoicePoolCount,DecVoicePoolCount solver=z3
void h_stolen(void)
{
    WORLD1(A_vn); INPUT(A_ch); INPUT(A_note); INPUT(A_vel); INPUT(A_reg);
    PRE(A_ch < 16 && A_note < 128 && A_vel < 128 && OLD1(A_vn).voiceState != eVoiceStateFree);
    VMStolenVoice(&VM, SY(A_SYN), A_vn, A_ch, A_note, A_vel, A_reg);
    x_stolen(1, A_vn, TAG, A_note, A_vel, A_reg);
    POST(world_eq(), "the voice is booked for the new note and its pools follow; nothing else changes"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_free prop=V02 harness=h_free enforce=VMFreeVoice covers=InitVoice,DecVoicePoolCount replace=VMUpdateAllNotesAge:c_age solver=z3
void h_free(void)
{
    WORLD1(A_vn);
    PRE(OLD1(A_vn).voiceState == eVoiceStateFree || (OLD1(A_vn).channel >> 4) == A_SYN);
    VMFreeVoice(&VM, SY(A_SYN), &VM.voices[A_vn]);
    x_free(1, A_vn);
    POST(world_eq(), "the voice is free, every count drops by exactly that voice; nothing else changes"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_retarget prop=V02 harness=h_ret enforce=VMRetargetStolenVoice replace=VMFreeVoice:c_free solver=z3
void h_ret(void)
{
    WORLD1(A_vn); PRE(OLD1(A_vn).voiceState == eVoiceStateStolen);
    EAS_U16 r = OLD1(A_vn).nextRegionIndex;
    EAS_BOOL got = VMRetargetStolenVoice(&VM, A_vn);
    int want = x_retarget(1, A_vn);
    POST(world_eq(), "the stolen voice starts its pending note on that note's stream, or is freed"); POST(wf_all(), "invariant");
    POST((got == EAS_TRUE) == want && (!want || REC.startRegion == r), "result and region");
    REACH();
}
//@ unit v02_avail prop=V02 harness=h_avail enforce=VMFindAvailableVoice solver=z3
static EAS_INT R_vn; static EAS_RESULT R;
SPEC_BEGIN
static int post_avail(void)
{
    int i, best = -1;
    for (i = MAX_SYNTH_VOICES - 1; i >= 0; i--) if (i >= A_lo && i <= A_hi && VM.voices[i].voiceState == eVoiceStateFree) best = i;
    if (best < 0) return R != EAS_SUCCESS;
    return R == EAS_SUCCESS && R_vn >= A_lo && R_vn <= A_hi && VM.voices[R_vn].voiceState == eVoiceStateFree;
}
SPEC_END
void h_avail(void)
{
    WORLD(); INPUT(A_lo); INPUT(A_hi); PRE(A_lo >= 0 && A_lo <= MAX_SYNTH_VOICES && A_hi < MAX_SYNTH_VOICES && A_hi >= -1);
    R = VMFindAvailableVoice(&VM, &R_vn, A_lo, A_hi);
    POST(post_avail(), "a free voice of the range is found whenever there is one"); POST(world_eq(), "nothing changes");
    REACH();
}
//@ unit v02_keygroup prop=V02 harness=h_kg enforce=VMCheckKeyGroup replace=VMMuteVoice:c_mute cases=ASYN:0:1:2:3 defs=-DLIGHT solver=cadical
SPEC_BEGIN
static int regs_ok(void)
{
    unsigned i; int ok = 1;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= (VM.voices[i].regionIndex & ~FLAG_RGN_IDX_DLS_SYNTH) < 16 && (VM.voices[i].nextRegionIndex & ~FLAG_RGN_IDX_DLS_SYNTH) < 16;
    return ok;
}
static void x_keygroup(void)
{
    unsigned i;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *o = &OV[i];
        EAS_U16 r = o->voiceState == eVoiceStateStolen ? o->nextRegionIndex : o->regionIndex;
        if (o->voiceState == eVoiceStateFree || eff_ch(o) != TAG || KG(r) != A_kg) continue;
        if (o->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET) o->voiceFlags |= VOICE_FLAG_DEFER_MUTE;
        else x_mute(1, i);
    }
}
SPEC_END
void h_kg(void)
{
    WORLD(); regions(); INPUT(A_kg); INPUT(A_ch);
#ifdef VK_NATIVE
    if (vk_random_mode()) { unsigned i; A_ch = vk_rand() % 3; A_kg = (1 + vk_rand() % 3) << 8;
        for (i = 0; i < MAX_SYNTH_VOICES; i++) { VM.voices[i].regionIndex = (vk_rand() % 4) | (vk_rand() & 1 ? 0x4000 : 0); VM.voices[i].nextRegionIndex = (vk_rand() % 4) | (vk_rand() & 1 ? 0x4000 : 0); } save_world(); }
#endif
    PRE(A_ch < 16 && A_kg != 0 && (A_kg & ~0xf00) == 0 && regs_ok());
    VMCheckKeyGroup(&VM, SY(A_SYN), A_kg, A_ch);
    x_keygroup();
    POST(world_eq(), "exactly the notes of that exclusive group on that channel are silenced"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_polylimit prop=V02 harness=h_pl enforce=VMCheckPolyphonyLimiting replace=VMStolenVoice:c_stolen_rec solver=cadical
//@ loop[v02_polylimit] VMCheckPolyphonyLimiting:0 locals: voiceNum, oldestVoiceNum, numVoicesPlayingNote, age, oldestNoteAge; assigns: voiceNum, oldestVoiceNum, numVoicesPlayingNote, age, oldestNoteAge; inv: voiceNum >= 0 && voiceNum <= 64 && numVoicesPlayingNote == PS[voiceNum] && oldestVoiceNum >= 0 && oldestVoiceNum <= 64
//@ inv+ && (oldestVoiceNum == 64 || oldestVoiceNum < voiceNum) && (oldestVoiceNum != 64 || oldestNoteAge == 0) && (!(oldestVoiceNum == W1) || (C1 && oldestNoteAge == AG1))
//@ inv+ && (!(W2 < voiceNum && C2) || (oldestVoiceNum != 64 && oldestNoteAge >= AG2))
static unsigned W1, W2; static int C1, C2; static EAS_U16 AG1, AG2; static EAS_U8 PS[65];
SPEC_BEGIN
static int on_key(unsigned i)
{
    S_SYNTH_VOICE *o = &OV[i];
    return o->voiceState != eVoiceStateFree && (o->voiceState == eVoiceStateStolen ? o->nextChannel == TAG && o->nextNote == A_note : o->channel == TAG && o->note == A_note);
}
static int cand(unsigned i) { return on_key(i) && OV[i].voiceState != eVoiceStateStolen; }
static EAS_U16 age_of(unsigned i) { return O_age - OV[i].age; }
static void witnesses(void) { C1 = cand(W1); C2 = cand(W2); AG1 = age_of(W1); AG2 = age_of(W2); }
/* the voice that was taken over (64: none) */
static unsigned taken(void) { unsigned i, t = 64; if (ST.calls) return ST.n;
#if defined(VK_NATIVE) || defined(VK_INLINED)
    for (i = 0; i < MAX_SYNTH_VOICES; i++) if (REC.mute[i]) t = i;
#endif
    return t; }
static int may_take(unsigned t) { return t == 64 ? !C2 : t != W1 || (C1 && (!C2 || AG2 <= AG1)); }
SPEC_END
void h_pl(void)
{
    EAS_I32 lo = 0, hi = MAX_SYNTH_VOICES - 1; unsigned i;
    WORLD(); INPUT(A_ch); INPUT(A_note); INPUT(A_vel); INPUT(A_reg); INPUT(W1); INPUT(W2);
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_ch = vk_rand() % 3; A_note = 0x68 + vk_rand() % 3; A_vel &= 127; }
    W1 %= 64; W2 %= 64;
#endif
    PRE(A_ch < 16 && A_note < 128 && A_vel < 128 && W1 < 64 && W2 < 64);
    witnesses();
    for (PS[0] = 0, i = 0; i < 64; i++) PS[i + 1] = PS[i] + on_key(i);
    EAS_BOOL got = VMCheckPolyphonyLimiting(&VM, SY(A_SYN), A_ch, A_note, A_vel, A_reg, lo, hi);
    unsigned t = taken();
    if (PS[64] < 2) { POST(t == 64 && got == EAS_FALSE, "fewer than two voices on the key: a new one may start"); }
    else {
        POST((got == EAS_TRUE) == (t != 64), "result");
#ifdef VK_NATIVE
        for (W1 = 0; W1 < 64; W1++) for (W2 = 0; W2 < 64; W2++) { witnesses(); POST(may_take(t), "the oldest voice of the key is taken over"); }
#endif
        POST(may_take(t), "the oldest voice of the key is taken over");
        if (ST.calls) POST(ST.calls == 1 && ST.ch == TAG && ST.note == A_note && ST.vel == A_vel && ST.region == A_reg, "it is booked for the new note");
#if defined(VK_NATIVE) || defined(VK_INLINED)
        else if (t < 64) x_stolen(1, t, TAG, A_note, A_vel, A_reg);
#endif
    }
    POST(world_eq(), "nothing else changes");
    REACH();
}
//@ unit v02_alloff prop=V02 harness=h_alloff enforce=VMAllNotesOff replace=VMMuteVoice:c_mute cases=ASYN:0:1:2:3 defs=-DLIGHT solver=cadical
void h_alloff(void)
{
    unsigned i;
    WORLD(); INPUT(A_ch); PRE(A_ch < 16);
    VMAllNotesOff(&VM, SY(A_SYN), A_ch);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) if (OV[i].voiceState != eVoiceStateFree && eff_ch(&OV[i]) == TAG) x_mute(1, i);
    POST(world_eq(), "exactly the voices of the channel are silenced"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_muteall prop=V02 harness=h_muteall enforce=VMMuteAllVoices replace=VMMuteVoice:c_mute cases=ASYN:0:1:2:3 defs=-DLIGHT solver=cadical
void h_muteall(void)
{
    unsigned i;
    WORLD();
    VMMuteAllVoices(&VM, SY(A_SYN));
    for (i = 0; i < MAX_SYNTH_VOICES; i++) if ((eff_ch(&OV[i]) >> 4) == A_SYN) x_mute(1, i);
    POST(world_eq(), "exactly the voices of the stream are silenced"); POST(wf_all(), "invariant");
    REACH();
}
//@ unit v02_addsamples prop=V02 harness=h_add enforce=VMAddSamples replace=VMMuteVoice:c_mute,VMFreeVoice:c_free,VMRetargetStolenVoice:c_retarget defs=-DLIGHT,-DMAX_SYNTH_VOICES=6 unwind=20 kind=bounded bound=6_voices
static EAS_I32 MIXB[8]; static EAS_I32 R_add;
void h_add(void)
{
    unsigned i; EAS_I32 want = 0; int freed;
    WORLD(); INPUT(UPD_done); INPUT(UPD_gain);
    R_add = VMAddSamples(&VM, MIXB, 8);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *v = &OV[i];
        if (v->voiceState == eVoiceStateStolen && v->gain <= 0) x_retarget(1, i);
        if (v->voiceState == eVoiceStateFree) continue;
        want++; EREC.upd[i]++;
        v->voiceFlags &= ~VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET; v->gain = UPD_gain[i];
        if (UPD_done[i]) { if (v->voiceState == eVoiceStateStolen) v->gain = 0; else x_free(1, i); }
        if (v->voiceFlags & VOICE_FLAG_DEFER_MUTE) { v->voiceFlags &= ~(VOICE_FLAG_DEFER_MUTE | VOICE_FLAG_DEFER_MIDI_NOTE_OFF); x_mute(1, i); }
        if (v->voiceState == eVoiceStateStart) v->voiceState = eVoiceStatePlay;
    }
    POST(world_eq(), "every sounding voice is rendered once; finished ones are freed, silent stolen ones start their new note"); POST(wf_all(), "invariant");
    POST(R_add == want, "number of voices rendered");
    REACH();
}

//@ unit v02_start prop=V02 harness=h_start enforce=VMStartVoice replace=VMCheckKeyGroup:c_kg,VMCheckPolyphonyLimiting:c_plim,VMFindAvailableVoice:c_avail,VMStealVoice:c_steal,VMStolenVoice:c_stolen_rec covers=IncVoicePoolCount solver=z3 inline=0 nsan=none
/* the callees (each under its own contract in this file and V03) answer anything; the calls are remembered */
static EAS_U8 KG_calls, PL_calls, AV_ok, SV_ok, PL_yes, AV_calls, SV_calls, CS_bad; static EAS_U16 KG_got;
void c_kg(S_VOICE_MGR *m, S_SYNTH *s, EAS_U16 kg, EAS_U8 ch) { if (m != &VM || s != SY(A_SYN) || ch != A_ch) CS_bad = 1; KG_calls++; KG_got = kg; }
EAS_BOOL c_plim(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region, EAS_I32 lo, EAS_I32 hi)
{
    if (m != &VM || s != SY(A_SYN) || ch != A_ch || note != A_note || vel != A_vel || region != A_reg || lo != 0 || hi != MAX_SYNTH_VOICES - 1) CS_bad = 1;
    PL_calls++; return PL_yes ? EAS_TRUE : EAS_FALSE;
}
EAS_RESULT c_avail(S_VOICE_MGR *m, EAS_INT *vn, EAS_I32 lo, EAS_I32 hi)
{
    if (m != &VM || lo != 0 || hi != MAX_SYNTH_VOICES - 1) CS_bad = 1;
    AV_calls++; if (!AV_ok) return EAS_FAILURE;
    *vn = A_vn; return EAS_SUCCESS;
}
EAS_RESULT c_steal(S_VOICE_MGR *m, S_SYNTH *s, EAS_INT *vn, EAS_U8 ch, EAS_U8 note, EAS_I32 lo, EAS_I32 hi)
{
    if (m != &VM || s != SY(A_SYN) || ch != A_ch || note != A_note || lo != 0 || hi != MAX_SYNTH_VOICES - 1) CS_bad = 1;
    SV_calls++; if (!SV_ok) return EAS_FAILURE;
    *vn = A_vn; return EAS_SUCCESS;
}
void h_start(void)
{
    unsigned r; int pool, room; EAS_U16 kf; EAS_I32 maxp, sp;
    S_SYNTH *s; S_SYNTH_VOICE *v;
    WORLD1(A_vn); INPUT(A_ch); INPUT(A_note); INPUT(A_vel); INPUT(A_reg); INPUT(WFL); INPUT(DFL); INPUT(AV_ok); INPUT(SV_ok); INPUT(PL_yes); INPUT(KOFF);
    KG_calls = PL_calls = AV_calls = SV_calls = CS_bad = 0;
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_ch &= 15; A_note &= 127; A_vel &= 127; A_reg &= 0x400f; A_vn &= 63;
        if (vk_rand() & 1) for (r = 0; r < 16; r++) S0.poolCount[r] = S1.poolCount[r] = S2.poolCount[r] = S3.poolCount[r] = 0; }
    for (r = 0; r < MAX_SYNTH_VOICES; r++) VM.voices[r].regionIndex &= 0x400f, VM.voices[r].nextRegionIndex &= 0x400f, VM.voices[r].nextVelocity &= 127;
#endif
    for (r = 0; r < 16; r++) { WTR[r].region.keyGroupAndFlags = KG(r) | WFL[r]; DREG[r].wtRegion.region.keyGroupAndFlags = KG(r) | DFL[r]; }
    LIBX.pWTRegions = WTR; DLSX.pDLSRegions = DREG;
    S0.pEAS = S1.pEAS = S2.pEAS = S3.pEAS = &LIBX; S0.pDLS = S1.pDLS = S2.pDLS = S3.pDLS = &DLSX;
    PRE(A_ch < 16 && A_note < 128 && A_vel < 128 && (A_reg & ~0x400f) == 0);
    s = OSY(A_SYN);
#ifdef VK_NATIVE
    save_world();
#else
    save_synths();
    PRE((OVN.voiceState == eVoiceStateFree) == (AV_ok != 0));     /* what the two searches promise about the voice they found */
#endif
    kf = A_reg & FLAG_RGN_IDX_DLS_SYNTH ? DREG[A_reg & 15].wtRegion.region.keyGroupAndFlags : WTR[A_reg & 15].region.keyGroupAndFlags;
    pool = s->channels[A_ch].pool; maxp = O_maxpoly;
    sp = s->maxPolyphony == 0 || s->maxPolyphony > maxp ? maxp : s->maxPolyphony;
    room = O_active < maxp && s->numActiveVoices < sp;
    PRE(s->poolCount[pool] < 255);
    VMStartVoice(&VM, SY(A_SYN), A_ch, A_note, A_vel, A_reg);
#ifndef VK_NATIVE
    POST(!CS_bad, "the callees work for this note");
    /* other notes of the pool: the exclusive group is silenced, and the per-key limit applies unless the region is exempt */
    if (s->poolCount[pool] != 0 && (kf & 0xf00)) POST(KG_calls == 1 && KG_got == (kf & 0xf00), "exclusive group silenced");
    else POST(KG_calls == 0 || (kf & 0xf00), "no exclusive group");
    if (s->poolCount[pool] != 0 && !(kf & REGION_FLAG_NON_SELF_EXCLUSIVE)) {
        POST(PL_calls == 1, "per-key limit checked");
        if (PL_yes) { POST(ST.calls == 0 && world_eq(), "an old voice of the key was taken over: nothing else is started"); REACH(); return; }
    } else POST(PL_calls == 0 || !PL_yes, "per-key limit does not apply");
    if (room && AV_ok) {
        v = &OVN;
        POST(ST.calls == 0, "no voice is stolen while a free one may be used");
#else
    { static S_SYNTH_VOICE dummy; unsigned i, started = 64, gone = 0, taken = 0;
      /* native reading: the whole operation */
      for (i = 0; i < MAX_SYNTH_VOICES; i++) {
          if (OV[i].voiceState == eVoiceStateFree && VM.voices[i].voiceState != eVoiceStateFree) { started = i; taken++; }
          POST(!(OV[i].voiceState != eVoiceStateFree && VM.voices[i].voiceState == eVoiceStateFree), "no voice is freed");
      }
      POST(taken <= 1 && VM.activeVoices == (EAS_U16) (O_active + taken), "at most one voice is taken and counted");
      POST(SY(A_SYN)->numActiveVoices == (EAS_U16) (s->numActiveVoices + taken), "counted for its stream");
      POST(!taken || room, "limits");
      if (s->poolCount[pool] != 0 || !taken) { if (s->poolCount[pool] == 0 && room) { for (i = 0; i < MAX_SYNTH_VOICES; i++) POST(OV[i].voiceState != eVoiceStateFree, "a free voice is used when the limits allow it"); } return; }
      A_vn = started; v = &OV[started];
#endif
        s->numActiveVoices++; O_active++;
        v->channel = TAG; v->note = A_note; v->velocity = A_vel; v->age = O_age; O_age++; v->voiceState = eVoiceStateStart;
        s->poolCount[pool]++;
        v->regionIndex = A_reg; v->voiceFlags = VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET; v->gain = 0; EREC.start[A_vn]++;
        POST(world_eq(), "the free voice plays the note and every count rises by exactly that voice; nothing else changes"); POST(wf_all(), "invariant");
#ifndef VK_NATIVE
    } else {
        if (SV_ok) POST(ST.calls == 1 && ST.n == A_vn && ST.ch == TAG && ST.note == A_note && ST.vel == A_vel && ST.region == A_reg, "the best voice is booked for the note");
        else POST(ST.calls == 0, "the note is dropped");
        POST(world_eq(), "nothing else changes");
    }
#else
    }
#endif
    REACH();
}
