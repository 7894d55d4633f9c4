/* V08: scalable-polyphony tables */
//@ file unwind=17 fs=20 nlink= mode=plain timeout=300 solver=cadical
#include "vmworld.h"
#include "vmstubs.h"
static EAS_U8 A_ch, A_prio, A_mip, N_upd, CC_bad; static EAS_U8 MIP0[16], BY[16], PREV[17], QPOOL, QMIP, QALLOC, UOK, UPOOL; static unsigned QQ, QC, UC, QA; static int BYI[16];
void c_mutechan(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != &S0) CC_bad = 1; N_upd++; }
#include "eas_voicemgt.c"
#define INS0() do { INPUT(S0); S0.pEAS = NULL; S0.pDLS = NULL; S0.vSynthNum = 0; O0 = S0; N_upd = CC_bad = 0; \
    for (i = 0; i < MAX_SYNTH_VOICES && VK_IS_NATIVE; i++) VM.voices[i].voiceState = eVoiceStateFree; } while (0)

//@ unit v08_init prop=V08 harness=h_init enforce=VMInitMIPTable
void h_init(void)
{
    unsigned i; INS0();
    VMInitMIPTable(&S0);
    O0.synthFlags &= ~SYNTH_FLAG_SP_MIDI_ON;
    for (i = 0; i < 16; i++) { O0.channels[i].pool = 0; O0.channels[i].mip = 0; }
    POST(syn_eq(&S0, &O0), "a new table starts empty and scalable polyphony is off until it is complete");
    REACH();
}
//@ unit v08_entry prop=V08 harness=h_entry enforce=VMSetMIPEntry
void h_entry(void)
{
    unsigned i; INS0(); INPUT(A_ch); INPUT(A_prio); INPUT(A_mip);
    A_ch &= 15;
    VMSetMIPEntry(&VM, &S0, A_ch, A_prio, A_mip);
    for (i = 0; i < 16; i++) if (i == A_ch && A_prio < 16) { O0.channels[i].pool = A_prio; O0.channels[i].mip = A_mip; }
    POST(syn_eq(&S0, &O0), "the channel gets its priority and its requirement, entries past the sixteenth are ignored");
    REACH();
}
SPEC_BEGIN
#define LISTED(c) (O0.channels[c].mip != 0 && O0.channels[c].pool < 16)
SPEC_END
//@ unit v08_table prop=V08 harness=h_table enforce=VMUpdateMIPTable replace=VMMIPUpdateChannelMuting:c_mutechan
//@ loop[v08_table] VMUpdateMIPTable:2 locals: i, currentMIP, currentPool, pChannel, priority; assigns: i, currentMIP, currentPool, pChannel, S0.poolAlloc, S0.channels[0].pool, S0.channels[1].pool, S0.channels[2].pool, S0.channels[3].pool, S0.channels[4].pool, S0.channels[5].pool, S0.channels[6].pool, S0.channels[7].pool, S0.channels[8].pool, S0.channels[9].pool, S0.channels[10].pool, S0.channels[11].pool, S0.channels[12].pool, S0.channels[13].pool, S0.channels[14].pool, S0.channels[15].pool; inv: i >= 0 && i <= 16
//@ inv+ && priority[0] == BYI[0] && priority[1] == BYI[1] && priority[2] == BYI[2] && priority[3] == BYI[3] && priority[4] == BYI[4] && priority[5] == BYI[5] && priority[6] == BYI[6] && priority[7] == BYI[7] && priority[8] == BYI[8] && priority[9] == BYI[9] && priority[10] == BYI[10] && priority[11] == BYI[11] && priority[12] == BYI[12] && priority[13] == BYI[13] && priority[14] == BYI[14] && priority[15] == BYI[15]
//@ inv+ && (PREV[i] == 16 ? (currentPool == -1 && currentMIP == 0) : (currentPool >= 0 && currentPool < i && currentPool == S0.channels[PREV[i]].pool && currentMIP == MIP0[PREV[i]]))
//@ inv+ && (!(QQ >= i && BY[QQ] != 16) || S0.channels[QC].pool == QPOOL) && (!UOK || S0.channels[UC].pool == UPOOL)
//@ inv+ && (!(QQ < i && BY[QQ] != 16) || (S0.channels[QC].pool <= currentPool && (PREV[QQ] == 16 ? (S0.channels[QC].pool == 0 && S0.poolAlloc[0] == QMIP) : (S0.channels[PREV[QQ]].pool < 16 && (MIP0[PREV[QQ]] == QMIP ? S0.channels[QC].pool == S0.channels[PREV[QQ]].pool : (S0.channels[QC].pool == S0.channels[PREV[QQ]].pool + 1 && S0.poolAlloc[S0.channels[QC].pool & 15] == QMIP - MIP0[PREV[QQ]]))))))
//@ inv+ && (!(QA + 1 > currentPool + 1) || S0.poolAlloc[QA] == QALLOC)
//@ assume[v08_table] the table lists distinct channels with requirements that do not decrease (what the SP-MIDI specification demands)
void h_table(void)
{
    unsigned i, p; EAS_U8 last = 0;
    INS0();
#ifdef VK_NATIVE
    if (vk_random_mode()) { EAS_U8 m = 0, c0 = vk_rand(); for (i = 0; i < 16; i++) S0.channels[i].mip = 0, S0.channels[i].pool = 0;
        for (i = 0; i < vk_rand() % 17; i++) { m += vk_rand() % 3; S0.channels[(c0 + i * 5) & 15].mip = m; S0.channels[(c0 + i * 5) & 15].pool = i; }
        for (i = 0; i < 16; i++) S0.poolAlloc[i] = vk_rand() % 40; O0 = S0; }
    VM.maxPolyphony = 64;
#endif
    INPUT(QQ); INPUT(UC); INPUT(QA);
    QQ &= 15; UC &= 15; QA &= 15;      /* an arbitrary place of the table, an arbitrary channel, an arbitrary pool */
    /* entries: distinct priorities, requirements that do not decrease with them */
    for (p = 0; p < 16; p++) BY[p] = 16;
    for (i = 0; i < 16; i++) {
        MIP0[i] = S0.channels[i].mip;
        PRE(S0.channels[i].pool <= 16);
        if (LISTED(i)) { PRE(BY[S0.channels[i].pool] == 16); BY[S0.channels[i].pool] = i; }
    }
    PREV[0] = 16; 
    for (p = 0; p < 16; p++) {
        BYI[p] = BY[p] < 16 ? BY[p] : -1; PREV[p + 1] = BY[p] < 16 ? BY[p] : PREV[p];
        if (BY[p] < 16) { PRE(MIP0[BY[p]] >= last); last = MIP0[BY[p]]; }
    }
    QC = BY[QQ] & 15; QPOOL = S0.channels[QC].pool; QMIP = MIP0[QC]; QALLOC = S0.poolAlloc[QA]; UOK = !LISTED(UC); UPOOL = S0.channels[UC].pool;
    VMUpdateMIPTable(&VM, &S0);
#ifndef VK_NATIVE
    POST(N_upd == 1 && !CC_bad, "the muting is brought up to date once");
    {
#else
    for (QQ = 0; QQ < 16; QQ++) {
        QC = BY[QQ] & 15; QPOOL = O0.channels[QC].pool; QMIP = MIP0[QC]; QA = UC = QQ; QALLOC = O0.poolAlloc[QA]; UOK = !LISTED(UC); UPOOL = O0.channels[UC].pool;
#endif
        if (BY[QQ] < 16) {
            unsigned n = S0.channels[QC].pool;
            POST(n < 16, "a listed channel has a voice pool");
            if (PREV[QQ] == 16) POST(n == 0 && S0.poolAlloc[0] == QMIP, "the first listed channel owns the first pool, sized by its requirement");
            else if (MIP0[PREV[QQ]] == QMIP) POST(n == S0.channels[PREV[QQ]].pool, "channels that share a requirement share one voice pool");
            else POST(n == S0.channels[PREV[QQ]].pool + 1u && S0.poolAlloc[n & 15] == (EAS_U8) (QMIP - MIP0[PREV[QQ]]), "a higher requirement opens the next pool, sized by the difference to the previous requirement");
        }
        if (UOK) POST(S0.channels[UC].pool == UPOOL, "a channel that is not listed is left alone");
        if (PREV[16] == 16 || QA > S0.channels[PREV[16] & 15].pool) POST(S0.poolAlloc[QA] == QALLOC, "pools that are not used keep their size");
    }
    O0.synthFlags |= SYNTH_FLAG_SP_MIDI_ON;
    for (i = 0; i < 16; i++) { O0.channels[i].pool = S0.channels[i].pool; O0.poolAlloc[i] = S0.poolAlloc[i]; }
#ifdef VK_NATIVE
    for (i = 0; i < 16; i++) { O0.channels[i].channelFlags = S0.channels[i].channelFlags; O0.poolCount[i] = S0.poolCount[i]; }
#endif
    POST(syn_eq(&S0, &O0), "scalable polyphony is on; nothing else changes");
    REACH();
}
//@ unit v08_muting prop=V08 harness=h_muting enforce=VMMIPUpdateChannelMuting replace=VMReleaseVoice:c_release cases=POOLN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 defs=-DLIGHT,-DASYN=1,-DMAX_SYNTH_VOICES=6 kind=bounded bound=6_voices
#ifndef POOLN
#define POOLN 0
#endif
void h_muting(void)
{
    unsigned i, want = 0, lim, v0; S_SYNTH *s, *o;
    WORLD();
    VMMIPUpdateChannelMuting(&VM, SY(A_SYN));
    s = SY(A_SYN); o = OSY(A_SYN); lim = o->maxPolyphony ? o->maxPolyphony : O_maxpoly;
    for (i = 0; i < 16; i++) {
        if (o->channels[i].mip != 0 && o->channels[i].mip <= lim) o->channels[i].channelFlags &= ~CHANNEL_FLAG_MUTE;
        else o->channels[i].channelFlags |= CHANNEL_FLAG_MUTE;
    }
    for (i = 0; i < MAX_SYNTH_VOICES; i++) {
        S_SYNTH_VOICE *v = &OV[i];
        if (!counted(v) || (eff_ch(v) >> 4) != A_SYN) continue;
        if (o->channels[eff_ch(v) & 15].channelFlags & CHANNEL_FLAG_MUTE) {
            if (v->voiceState == eVoiceStateStolen) { v->voiceState = eVoiceStateMuting; continue; }
            x_release(1, i);
        }
        want += o->channels[eff_ch(v) & 15].pool == POOLN;
    }
    POST(s->poolCount[POOLN] == (EAS_U8) want, "the pool counts exactly the voices of its channels");
    for (i = 0; i < 16; i++) o->poolCount[i] = s->poolCount[i];      /* every other pool: sibling case of the split */
    POST(world_eq(), "a channel is muted exactly when its requirement is missing or exceeds the limit; voices of muted channels are released, others keep sounding");
    REACH();
}
