/* V05: which regions a note-on starts */
//@ file unwind=18 fs=20 inline=0 nlink= mode=plain timeout=300 solver=cadical
#include "vmworld.h"
#include "vmstubs.h"
#ifndef FST
#define FST 2
#endif
#ifndef CHN
#define CHN 0
#endif
#ifndef NR
#define NR 16
#endif
static EAS_U8 A_ch, A_note, A_vel, CC_bad, N_start[NR]; static S_WT_REGION WTR[NR]; static S_DLS_REGION DLR[NR]; static S_EAS LIBX; static S_DLS DLSX;
static unsigned FIRST, LASTR;
/* starting a voice is V02's contract; here the request is remembered */
void c_start(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region)
{
    unsigned r = region & ~FLAG_RGN_IDX_DLS_SYNTH;
    if (m != &VM || s != &S0 || ch != A_ch || note != A_note || vel != A_vel || (region & FLAG_RGN_IDX_DLS_SYNTH) != (ISDLS ? FLAG_RGN_IDX_DLS_SYNTH : 0) || r >= NR) { CC_bad = 1; return; }
    N_start[r]++;
}
#if defined(VK_NATIVE) || defined(VK_INLINED)
/* natively the starts are observed at the synthesizer interface: the voice manager has 64 free voices and no limits */
static void observe(void)
{
    unsigned i;
    for (i = 0; i < MAX_SYNTH_VOICES; i++) if (REC.start[i]) {
        S_SYNTH_VOICE *v = &VM.voices[i];
        c_start(&VM, &S0, v->channel & 15, v->note, v->velocity, v->regionIndex);
    }
}
#endif
#include "eas_voicemgt.c"
SPEC_BEGIN
static int adj(void)
{
    int n = A_note + S0.channels[A_ch].coarsePitch;
    if (!(S0.channels[A_ch].channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL)) n += S0.globalTranspose;
    return n < 0 ? 0 : n > 127 ? 127 : n;
}
static int match(unsigned r, int n)
{
    const S_REGION *g = ISDLS ? &DLR[r].wtRegion.region : &WTR[r].region;
    if (n < g->rangeLow || n > g->rangeHigh) return 0;
    return !ISDLS || (A_vel >= DLR[r].velLow && A_vel <= DLR[r].velHigh);
}
static int is_last(unsigned r) { return ((ISDLS ? DLR[r].wtRegion.region.keyGroupAndFlags : WTR[r].region.keyGroupAndFlags) & REGION_FLAG_LAST_REGION) != 0; }
SPEC_END
//@ unit v05_wt prop=V05 harness=h_note enforce=VMStartNote replace=VMStartVoice:c_start defs=-DISDLS=0 kind=bounded bound=instruments_of_at_most_16_regions cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15
//@ unit v05_dls prop=V05 harness=h_note enforce=VMStartNote replace=VMStartVoice:c_start defs=-DISDLS=1 kind=bounded bound=instruments_of_at_most_16_regions cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15
void h_note(void)
{
    unsigned r; int n, stop, want, muted;
    INPUT(S0); INPUT(A_ch); INPUT(A_note); INPUT(A_vel); INPUT(WTR); INPUT(DLR); INPUT(FIRST); INPUT(LASTR);
    A_note &= 127; A_vel &= 127; A_ch = CHN; S0.vSynthNum = 0;
    FIRST = FST; LASTR = FIRST + LASTR % (NR - FIRST);
    CC_bad = 0; PRE(S0.totalNoteCount >= 0 && S0.totalNoteCount < 0x7fffffff);
    for (r = 0; r < 16; r++) PRE(S0.channels[r].pool < 16);
    for (r = 0; r < NR; r++) {        /* the instrument is FIRST..LASTR; what follows belongs to other instruments */
        N_start[r] = 0;
#if defined(VK_NATIVE) || defined(VK_INLINED)
        /* no exclusive groups, and any number of voices per key */
        WTR[r].region.keyGroupAndFlags = REGION_FLAG_NON_SELF_EXCLUSIVE | (WTR[r].region.keyGroupAndFlags & REGION_FLAG_LAST_REGION);
        DLR[r].wtRegion.region.keyGroupAndFlags = REGION_FLAG_NON_SELF_EXCLUSIVE | (DLR[r].wtRegion.region.keyGroupAndFlags & REGION_FLAG_LAST_REGION);
#ifdef VK_NATIVE
        if (vk_random_mode() && vk_rand() & 1) { DLR[r].velLow = vk_rand() & 63; DLR[r].velHigh = 127 - (vk_rand() & 63); DLR[r].wtRegion.region.rangeLow = WTR[r].region.rangeLow = vk_rand() & 63; DLR[r].wtRegion.region.rangeHigh = WTR[r].region.rangeHigh = 127 - (vk_rand() & 63); }
#endif
#endif
        if (r >= FIRST && r < LASTR) { WTR[r].region.keyGroupAndFlags &= ~REGION_FLAG_LAST_REGION; DLR[r].wtRegion.region.keyGroupAndFlags &= ~REGION_FLAG_LAST_REGION; }
        if (r == LASTR) { WTR[r].region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; DLR[r].wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; }
    }
    LIBX.pWTRegions = WTR; DLSX.pDLSRegions = DLR; S0.pEAS = &LIBX; S0.pDLS = &DLSX;
    S0.channels[A_ch].regionIndex = FIRST | (ISDLS ? FLAG_RGN_IDX_DLS_SYNTH : 0);
#if defined(VK_NATIVE) || defined(VK_INLINED)
    { static const S_VOICE_MGR z; VM = z; } VM.pSynth[0] = &S0; VM.maxPolyphony = MAX_SYNTH_VOICES; S0.maxPolyphony = 0; S0.numActiveVoices = 0; for (r = 0; r < 16; r++) S0.poolCount[r] = 0; zrec();
    for (r = 0; r < MAX_SYNTH_VOICES; r++) { VM.voices[r].channel = VM.voices[r].nextChannel = 16; VM.voices[r].note = 0x69; }
#endif
    O0 = S0; n = adj(); muted = (S0.channels[A_ch].channelFlags & CHANNEL_FLAG_MUTE) != 0;
    VMStartNote(&VM, &S0, A_ch, A_note, A_vel);
#if defined(VK_NATIVE) || defined(VK_INLINED)
    observe(); O0.numActiveVoices = S0.numActiveVoices; for (r = 0; r < 16; r++) O0.poolCount[r] = S0.poolCount[r];
#endif
    POST(!CC_bad, "voices are started for that note of that channel only, with regions of its instrument");
    for (r = 0, stop = 0; r < NR; r++) {
        want = !muted && !stop && r >= FIRST && r <= LASTR && match(r, n);
        POST(N_start[r] == want, "exactly the matching regions of the instrument sound");
        if (want && !ISDLS) stop = 1;     /* built-in instruments: the first match only */
    }
    O0.totalNoteCount++;
    POST(syn_eq(&S0, &O0), "the note is counted; nothing else changes");
    REACH();
}

/* --- any instrument length ---
   The region table is a function of the index (each index is looked at once, in order): region K_at is an arbitrary fixed
   one, the others are arbitrary subject to what they are for - the instrument is FIRST..LASTR, LASTR is its only last
   region, and (built-in instruments) K_at is the first match if there is one. */
#if !defined(VK_NATIVE) && !defined(VK_INLINED)
static S_DLS_REGION RK, RO; static unsigned K_at, N_seen, C_at; static EAS_U8 K_has; static unsigned N_k, N_tot, M_k; static int ADJ;
S_DLS_REGION nondet_region(void);
static int rmatch(const S_DLS_REGION *d)
{
    const S_REGION *g = &d->wtRegion.region;
    return ADJ >= g->rangeLow && ADJ <= g->rangeHigh && (!ISDLS || (A_vel >= d->velLow && A_vel <= d->velHigh));
}
const S_REGION *c_region(S_SYNTH *s, EAS_U16 idx)
{
    unsigned r = idx & 0x3fff;
    POST(s == &S0 && (idx & 0xc000) == (ISDLS ? FLAG_RGN_IDX_DLS_SYNTH : 0) && r >= FIRST && r <= LASTR, "only regions of the instrument are looked at");
    C_at = r; N_seen++;
    if (K_has && r == K_at) return &RK.wtRegion.region;
    RO = nondet_region();
    if (r == LASTR) RO.wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; else RO.wtRegion.region.keyGroupAndFlags &= ~REGION_FLAG_LAST_REGION;
    if (!ISDLS && (!K_has || r < K_at)) __CPROVER_assume(!rmatch(&RO));
    return &RO.wtRegion.region;
}
void c_startany(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 note, EAS_U8 vel, EAS_U16 region)
{
    unsigned r = region & 0x3fff;
    if (m != &VM || s != &S0 || ch != A_ch || note != A_note || vel != A_vel || (region & 0xc000) != (ISDLS ? FLAG_RGN_IDX_DLS_SYNTH : 0) || r != C_at || !rmatch(K_has && r == K_at ? &RK : &RO)) CC_bad = 1;
    POST(!CC_bad, "only a region just looked at that matches is started, for that note of that channel");
    N_tot++; if (K_has && r == K_at) N_k++;
}
#endif
//@ loop[v05_anywt] VMStartNote:1 locals: regionIndex; assigns: regionIndex, RO, CC_bad, C_at, N_seen, N_k, N_tot; inv: CC_bad == 0 && (unsigned) regionIndex >= FIRST && (unsigned) regionIndex <= LASTR && N_tot == 0 && N_k == 0 && (K_has == 0 || (unsigned) regionIndex <= K_at)
//@ loop[v05_anydls] VMStartNote:0 locals: regionIndex; assigns: regionIndex, RO, CC_bad, C_at, N_seen, N_k, N_tot; inv: CC_bad == 0 && (unsigned) regionIndex >= FIRST + 16384 && (unsigned) regionIndex <= LASTR + 16384 && N_k == (unsigned) ((unsigned) regionIndex > K_at + 16384 && M_k != 0)
//@ unit v05_anywt prop=V05 harness=h_any enforce=VMStartNote replace=VMStartVoice:c_startany,GetRegionPtr:c_region defs=-DISDLS=0 native=0
//@ unit v05_anydls prop=V05 harness=h_any enforce=VMStartNote replace=VMStartVoice:c_startany,GetRegionPtr:c_region defs=-DISDLS=1 native=0
#ifdef VK_INLINED
void h_any(void) { h_note(); }
#elif !defined(VK_NATIVE)
void h_any(void)
{
    int muted;
    INPUT(S0); INPUT(A_ch); INPUT(A_note); INPUT(A_vel); INPUT(FIRST); INPUT(LASTR); INPUT(RK); INPUT(K_at); INPUT(K_has);
    A_note &= 127; A_vel &= 127; PRE(A_ch < 16); S0.vSynthNum = 0; CC_bad = 0; N_seen = N_k = N_tot = 0;
    PRE(S0.totalNoteCount >= 0 && S0.totalNoteCount < 0x7fffffff && FIRST <= LASTR && LASTR <= 0x3fff && K_at >= FIRST && K_at <= LASTR);
    S0.channels[A_ch].regionIndex = FIRST | (ISDLS ? FLAG_RGN_IDX_DLS_SYNTH : 0);
    if (K_at == LASTR) RK.wtRegion.region.keyGroupAndFlags |= REGION_FLAG_LAST_REGION; else RK.wtRegion.region.keyGroupAndFlags &= ~REGION_FLAG_LAST_REGION;
    ADJ = adj(); if (ISDLS) K_has = 1; else PRE(K_has <= 1 && (!K_has || rmatch(&RK)));
    M_k = rmatch(&RK); O0 = S0; muted = (S0.channels[A_ch].channelFlags & CHANNEL_FLAG_MUTE) != 0;
    VMStartNote(&VM, &S0, A_ch, A_note, A_vel);
    if (muted) POST(N_tot == 0 && N_seen == 0, "a muted channel starts nothing");
    else if (ISDLS) POST(N_k == (M_k != 0), "every region of a downloadable instrument that matches is started once");
    else POST(N_tot == K_has && N_k == K_has, "the first matching region of a built-in instrument is started, once");
    O0.totalNoteCount++;
    POST(syn_eq(&S0, &O0), "the note is counted; nothing else changes");
    REACH();
}
#endif
//@ unit v05_region prop=V05 harness=h_regionptr enforce=GetRegionPtr defs=-DISDLS=0
static EAS_U16 RIX;
void h_regionptr(void)
{
    INPUT(RIX); PRE((RIX & 0x3fff) < NR && !(RIX & 0x8000));
    LIBX.pWTRegions = WTR; DLSX.pDLSRegions = DLR; S0.pEAS = &LIBX; S0.pDLS = &DLSX;
    POST(GetRegionPtr(&S0, RIX) == (RIX & FLAG_RGN_IDX_DLS_SYNTH ? (const S_REGION *) &DLR[RIX & 0x3fff] : (const S_REGION *) &WTR[RIX]), "an index names its region of the table it is for");
    REACH();
}
