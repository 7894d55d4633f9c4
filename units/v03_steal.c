/* V03: which voice may be taken for a new note */
//@ file unwind=65 nlink= mode=plain timeout=600 solver=cadical
//@ assume voice world: state <= Stolen; a free voice carries the unassigned channel/key; every sounding voice belongs to a live synthesizer; stored velocities are 7-bit
#include "vmworld.h"
#include "vmstubs.h"
static EAS_U8 A_ch, A_note; static EAS_I32 A_lo, A_hi;
static EAS_INT R_vn; static EAS_RESULT R;
#define TAG ((EAS_U8) (A_ch | A_SYN << 4))
#include "eas_voicemgt.c"

SPEC_BEGIN
static EAS_U8 cur_note(const S_SYNTH_VOICE *o) { return o->voiceState == eVoiceStateStolen ? o->nextNote : o->note; }
/* may the acting stream take this voice at all? */
static int allowed(unsigned i)
{
    const S_SYNTH_VOICE *o = &OV[i];
    return (long) i >= A_lo && (long) i <= A_hi && o->voiceState != eVoiceStateFree && OSY(A_SYN)->priority <= OSY(eff_ch(o) >> 4)->priority;
}
static long score(unsigned i)
{
    const S_SYNTH_VOICE *o = &OV[i];
    const S_SYNTH *a = OSY(A_SYN), *s = OSY(eff_ch(o) >> 4);
    long p;
    if (o->voiceState == eVoiceStateStolen || (o->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET)) p = 128 - o->nextVelocity;
    else p = 2 * (long) o->age + 384 - (o->gain >> 8);
    if (a->synthFlags & SYNTH_FLAG_SP_MIDI_ON) {
        EAS_U8 pool = s->channels[eff_ch(o) & 15].pool;
        if (a->poolCount[pool] >= a->poolAlloc[pool]) p += ((long) a->poolCount[pool] - a->poolAlloc[pool] + 1) * 4096;
        p += pool * 4;
    }
    if (cur_note(o) == A_note && eff_ch(o) == TAG) p += 128;
    return p;
}
/* two arbitrary voices stand for "the voice found" and "any other voice" */
static unsigned W1, W2; static int OK1, OK2; static long SC1, SC2;
static int post_steal(void)
{
    if (R != EAS_SUCCESS) return !OK2;                                    /* refused: no voice may be taken */
    if (R_vn < A_lo || R_vn > A_hi) return 0;
    return (unsigned) R_vn != W1 || (OK1 && (!OK2 || SC2 <= SC1));        /* found: allowed, and nothing scores higher */
}
static int vel_ok(void) { unsigned i; int ok = 1; for (i = 0; i < MAX_SYNTH_VOICES; i++) ok &= VM.voices[i].nextVelocity < 128; return ok; }
SPEC_END
//@ unit v03_steal prop=V03 harness=h_steal enforce=VMStealVoice
//@ loop[v03_steal] VMStealVoice:0 locals: voiceNum, bestCandidate, bestPriority, currentPriority, pCurrVoice, pCurrSynth, currChannel, currNote; assigns: voiceNum, bestCandidate, bestPriority, currentPriority, pCurrVoice, pCurrSynth, currChannel, currNote; inv: voiceNum >= 0 && voiceNum <= 64 && bestCandidate >= 0 && bestCandidate <= 64 && (bestCandidate == 64 || bestCandidate < voiceNum) && bestPriority >= 0
//@ inv+ && (bestCandidate != 64 || bestPriority == 0) && (!(bestCandidate == W1) || (OK1 && bestPriority == SC1))
//@ inv+ && (!(W2 < voiceNum && OK2) || (bestCandidate != 64 && SC2 <= bestPriority))
void h_steal(void)
{
    WORLD(); INPUT(A_lo); INPUT(A_hi); INPUT(A_ch); INPUT(A_note); INPUT(W1); INPUT(W2);
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_ch = vk_rand() % 3; A_note = 0x68 + vk_rand() % 3; A_lo = 0; A_hi = MAX_SYNTH_VOICES - 1; }
    W1 %= MAX_SYNTH_VOICES; W2 %= MAX_SYNTH_VOICES;
#endif
    PRE(A_lo == 0 && A_hi == MAX_SYNTH_VOICES - 1 && A_ch < 16 && A_note < 128 && vel_ok() && W1 < MAX_SYNTH_VOICES && W2 < MAX_SYNTH_VOICES);
    OK1 = allowed(W1); SC1 = OK1 ? score(W1) : 0; OK2 = allowed(W2); SC2 = OK2 ? score(W2) : 0;
    R_vn = -1;
    R = VMStealVoice(&VM, SY(A_SYN), &R_vn, A_ch, A_note, A_lo, A_hi);
#ifdef VK_NATIVE
    for (W1 = 0; W1 < MAX_SYNTH_VOICES; W1++) for (W2 = 0; W2 < MAX_SYNTH_VOICES; W2++) {
        OK1 = allowed(W1); SC1 = OK1 ? score(W1) : 0; OK2 = allowed(W2); SC2 = OK2 ? score(W2) : 0;
        POST(post_steal(), "the voice found may be taken and no voice that may be taken has a higher steal score");
    }
#endif
    POST(post_steal(), "the voice found may be taken and no voice that may be taken has a higher steal score");
    POST(world_eq(), "looking for a voice changes nothing");
    REACH();
}
