/* V04: polyphony limits; the voice table is cut to six voices where every voice is looked at repeatedly */
//@ file unwind=17 fs=20 nlink= mode=plain timeout=300 solver=cadical
#include "vmworld.h"
#include "vmstubs.h"
static EAS_I32 A_lim, A_syn2, R_lim; static EAS_U8 N_upd[4], CC_bad; static EAS_RESULT R_res; static unsigned W1, W2;
void c_mutechan(S_VOICE_MGR *m, S_SYNTH *s) { unsigned k; if (m != &VM) CC_bad = 1; for (k = 0; k < 4; k++) if (s == SY(k)) N_upd[k]++; }
#include "eas_voicemgt.c"
#define NOSPM() do { if (VK_IS_NATIVE) { S0.synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON; S1.synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON; S2.synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON; S3.synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON; save_world(); } \
    CC_bad = 0; N_upd[0] = N_upd[1] = N_upd[2] = N_upd[3] = 0; } while (0)
SPEC_BEGIN
static EAS_I32 score(const S_SYNTH_VOICE *v, int glob)
{
    EAS_U8 ch = eff_ch(v); S_SYNTH *s = OSY(ch >> 4); EAS_I32 p;
    if (v->voiceState == eVoiceStateStolen || (v->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET)) p = 128 - v->nextVelocity;
    else p = ((EAS_I32) v->age << NOTE_AGE_STEAL_WEIGHT) + ((32768 >> (12 - NOTE_GAIN_STEAL_WEIGHT)) + 256) - ((EAS_I32) v->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
    p += s->channels[ch & 15].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
    if (glob) p += s->priority << SYNTH_PRIORITY_WEIGHT;
    return p;
}
static int cand(const S_SYNTH_VOICE *v, int glob) { return counted(v) && (glob || (eff_ch(v) >> 4) == A_SYN); }
/* after the call: the surplus voices with the highest scores are silenced, nothing else happens to any voice */
static int silenced(EAS_I32 limit, int glob)
{
    unsigned i, n = 0, m = 0; int ok = 1;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        if (cand(&OV[i], glob)) n++;
        if (REC.mute[i]) { m++; ok &= cand(&OV[i], glob); }
    }
    ok &= m == (n > limit ? n - limit : 0);
#ifdef VK_NATIVE
    for (W1 = 0; W1 < MAX_SYNTH_VOICES; W1++) for (W2 = 0; W2 < MAX_SYNTH_VOICES; W2++)
#endif
    if (REC.mute[W1] && cand(&OV[W2], glob) && !REC.mute[W2]) ok &= score(&OV[W1], glob) >= score(&OV[W2], glob);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) if (REC.mute[i]) x_mute(1, i);
    return ok;
}
SPEC_END
//@ unit v04_stream prop=V04 harness=h_stream enforce=VMSetPolyphony replace=VMMuteVoice:c_mute,VMMIPUpdateChannelMuting:c_mutechan defs=-DLIGHT,-DMAX_SYNTH_VOICES=3 kind=bounded bound=3_voices cases=ASYN:0:1:2:3 unwindset=VMSetPolyphony.0:4,VMSetPolyphony.1:4,VMSetPolyphony.2:4,VMSetPolyphony.3:4
void h_stream(void)
{
    unsigned i; EAS_I32 lim;
    WORLD(); INPUT(A_lim); INPUT(W1); INPUT(W2);
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_lim = vk_rand() % 8 - 1L; W1 %= MAX_SYNTH_VOICES; W2 %= MAX_SYNTH_VOICES; }
#endif
    PRE(W1 < MAX_SYNTH_VOICES && W2 < MAX_SYNTH_VOICES && O_maxpoly >= 1 && O_maxpoly <= MAX_SYNTH_VOICES);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) PRE(OV[i].nextVelocity < 128 && OV[i].gain >= 0);
    NOSPM();
    R_res = VMSetPolyphony(&VM, SY(A_SYN), A_lim);
    if (A_lim < 0) { POST(R_res != EAS_SUCCESS && world_eq() && N_upd[A_SYN] == 0, "a negative limit is refused and changes nothing"); REACH(); return; }
    POST(R_res == EAS_SUCCESS, "accepted");
    EAS_I32 got = -1;
    POST(VMGetPolyphony(&VM, SY(A_SYN), &got) == EAS_SUCCESS && got == (A_lim > MAX_SYNTH_VOICES ? 0 : A_lim), "the limit reads back; more than the hardware voices means no limit");
    if (A_lim == 0 || A_lim > MAX_SYNTH_VOICES) { OSY(A_SYN)->maxPolyphony = 0; POST(world_eq(), "no limit: nothing is silenced"); REACH(); return; }
    OSY(A_SYN)->maxPolyphony = A_lim;
    lim = A_lim < O_maxpoly ? A_lim : O_maxpoly;
#ifndef VK_NATIVE
    POST(!CC_bad && N_upd[A_SYN] == ((OSY(A_SYN)->synthFlags & SYNTH_FLAG_SP_MIDI_ON) != 0) && N_upd[0] + N_upd[1] + N_upd[2] + N_upd[3] == N_upd[A_SYN], "a scalable-polyphony stream has its channel muting brought up to date");
#endif
    if (!(OSY(A_SYN)->synthFlags & SYNTH_FLAG_SP_MIDI_ON)) OSY(A_SYN)->poolAlloc[0] = lim;
    if (OSY(A_SYN)->numActiveVoices > lim) POST(silenced(lim, 0), "the surplus voices of the stream with the highest steal scores are silenced");
    POST(world_eq(), "nothing else changes; other streams are untouched");
    REACH();
}
//@ unit v04_engine prop=V04 harness=h_engine enforce=VMSetSynthPolyphony replace=VMMuteVoice:c_mute,VMMIPUpdateChannelMuting:c_mutechan defs=-DLIGHT,-DMAX_SYNTH_VOICES=3,-DASYN=0,-DLIVEM=3 kind=bounded bound=3_voices,2_streams unwindset=VMSetSynthPolyphony.0:5,VMSetSynthPolyphony.1:4,VMSetSynthPolyphony.2:4,VMSetSynthPolyphony.3:4,VMSetSynthPolyphony.9:4
void h_engine(void)
{
    unsigned i, k; EAS_I32 lim, got = -1;
    WORLD(); INPUT(A_lim); INPUT(A_syn2); INPUT(W1); INPUT(W2);
#ifdef VK_NATIVE
    if (vk_random_mode()) { A_lim = vk_rand() % 9 - 1L; A_syn2 = vk_rand() % 8 == 0; W1 %= MAX_SYNTH_VOICES; W2 %= MAX_SYNTH_VOICES; VM.maxPolyphony = 1 + vk_rand() % MAX_SYNTH_VOICES; O_maxpoly = VM.maxPolyphony; }
#endif
    PRE(W1 < MAX_SYNTH_VOICES && W2 < MAX_SYNTH_VOICES && O_maxpoly >= 1 && O_maxpoly <= MAX_SYNTH_VOICES);
    for (i = 0; i < MAX_SYNTH_VOICES; i++) PRE(OV[i].nextVelocity < 128 && OV[i].gain >= 0);
    NOSPM();
    R_res = VMSetSynthPolyphony(&VM, A_syn2, A_lim);
    if (A_syn2 != EAS_MCU_SYNTH) { POST(R_res != EAS_SUCCESS && world_eq() && VMGetSynthPolyphony(&VM, A_syn2, &got) != EAS_SUCCESS, "an unknown synthesizer is refused and nothing changes"); REACH(); return; }
    lim = A_lim < 1 ? 1 : A_lim > MAX_SYNTH_VOICES ? MAX_SYNTH_VOICES : A_lim;
    POST(R_res == EAS_SUCCESS && VMGetSynthPolyphony(&VM, A_syn2, &got) == EAS_SUCCESS && got == lim, "the clamped limit reads back");
    if (lim == O_maxpoly) { POST(world_eq(), "unchanged limit: nothing happens"); REACH(); return; }
    O_maxpoly = lim;
    for (k = 0; k < 4; k++) if (live(k)) {
        int sp = (OSY(k)->synthFlags & SYNTH_FLAG_SP_MIDI_ON) != 0;
        if (!sp) OSY(k)->poolAlloc[0] = lim;
#ifndef VK_NATIVE
        POST(N_upd[k] == sp && !CC_bad, "scalable-polyphony streams have their channel muting brought up to date");
#endif
    }
    if (O_active > lim) POST(silenced(lim, 1), "the surplus voices with the highest steal scores are silenced");
    POST(world_eq(), "nothing else changes");
    REACH();
}
//@ unit v04_prio prop=V04,V03 harness=h_prio enforce=VMSetPriority
void h_prio(void)
{
    EAS_I32 got = -1; INPUT(S0); INPUT(A_lim); S0.pEAS = NULL; S0.pDLS = NULL; A_lim &= 255; O0 = S0;
    POST(VMSetPriority(&VM, &S0, A_lim) == EAS_SUCCESS && VMGetPriority(&VM, &S0, &got) == EAS_SUCCESS && got == A_lim, "the priority reads back");
    O0.priority = A_lim; POST(syn_eq(&S0, &O0), "nothing else changes");
    REACH();
}
