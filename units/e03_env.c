/* E03: envelopes, LFO, voice release/mute/catch of both synthesizers */
//@ file mode=plain timeout=200 solver=cadical unwind=34 fs=20 link=eas_flog.c,eas_dlssynth.c,eas_math.c defs=-DMAX_SYNTH_VOICES=3
#include "kit.h"
#include "eas_wtsynth.c"
#define FS 32767
static EAS_INT PANv; static EAS_U8 PANn;
void EAS_CalcPanControl(EAS_INT p, EAS_I16 *l, EAS_I16 *r) { PANv = p; PANn++; *l = 11; *r = 22; }
/* the instrument file converters (D01) */
static EAS_I16 CR, CD; static EAS_I32 CRa, CDa; static EAS_U8 CRn, CDn;
EAS_I16 ConvertRate(EAS_I32 t) { CRa = t; CRn++; return CR; }
EAS_I16 ConvertDelay(EAS_I32 t) { CDa = t; CDn++; return CD; }
static EAS_U8 P_calls, P_bad; static EAS_I32 P_n, P_inc, P_gain, P_prev;
void WT_ProcessVoice(S_WT_VOICE *v, S_WT_INT_FRAME *f) { P_calls++; P_n = f->numSamples; P_inc = f->frame.phaseIncrement; P_gain = f->frame.gainTarget; P_prev = f->prevGain; }

static S_WT_VOICE V, OV; static S_ENVELOPE E; static S_LFO_CONTROL LF, OLF; static EAS_I16 INC;
SPEC_BEGIN
static long lmin(long a, long b) { return a < b ? a : b; }
static long lmax(long a, long b) { return a > b ? a : b; }
static int v_same(void) { /* the oscillator and the rest of the voice */
    return V.loopEnd == OV.loopEnd && V.loopStart == OV.loopStart && V.phaseAccum == OV.phaseAccum && V.phaseFrac == OV.phaseFrac && V.gainLeft == OV.gainLeft && V.gainRight == OV.gainRight
        && V.filter.z1 == OV.filter.z1 && V.filter.z2 == OV.filter.z2 && V.modLFO.lfoValue == OV.modLFO.lfoValue && V.modLFO.lfoPhase == OV.modLFO.lfoPhase && V.vibLFO.lfoValue == OV.vibLFO.lfoValue && V.vibLFO.lfoPhase == OV.vibLFO.lfoPhase && V.artIndex == OV.artIndex;
}
static int eg1_same(void) { return V.eg1Value == OV.eg1Value && V.eg1Increment == OV.eg1Increment && V.eg1State == OV.eg1State; }
static int eg2_same(void) { return V.eg2Value == OV.eg2Value && V.eg2Increment == OV.eg2Increment && V.eg2State == OV.eg2State; }
SPEC_END
#define ENV_OK(e) ((e).attackTime >= 0 && (e).decayTime >= 0 && (e).sustainLevel >= 0 && (e).releaseTime >= 0)

//@ unit e03_eg1 prop=E03 harness=h_eg1 enforce=WT_UpdateEG1
void h_eg1(void)
{
    INPUT(V); INPUT(E); E.attackTime &= FS; E.decayTime &= FS; E.sustainLevel &= FS; E.releaseTime &= FS; V.eg1Value &= FS; V.eg1Increment &= FS; V.eg1State %= 10; OV = V;
    WT_UpdateEG1(&V, &E);
    long v = OV.eg1Value, i = OV.eg1Increment;
    POST(V.eg1Value >= 0 && v_same() && eg2_same(), "the level stays in range; nothing but this envelope changes");
    switch (OV.eg1State) {
    case eEnvelopeStateAttack:
        POST(V.eg1Value == lmin(v + i, FS), "attack rises linearly to full scale");
        POST(V.eg1State == (v + i >= FS ? eEnvelopeStateDecay : eEnvelopeStateAttack) && V.eg1Increment == (v + i >= FS ? E.decayTime : i), "full scale starts the decay");
        break;
    case eEnvelopeStateDecay:
        POST(V.eg1Value == lmax((v * i) >> 15, E.sustainLevel), "decay multiplies down to the sustain level");
        POST(V.eg1State == (((v * i) >> 15) > E.sustainLevel ? eEnvelopeStateDecay : E.sustainLevel > 0 ? eEnvelopeStateSustain : eEnvelopeStateMuted), "the sustain level is held, silence ends the voice");
        break;
    case eEnvelopeStateSustain: POST(eg1_same(), "the sustain level is held"); break;
    case eEnvelopeStateRelease:
        POST(V.eg1Value == ((v * i) >> 15) && V.eg1Value <= v, "release falls"); POST(V.eg1State == (V.eg1Value > 0 ? eEnvelopeStateRelease : eEnvelopeStateMuted), "silence ends the voice");
        break;
    case eEnvelopeStateMuted: POST(V.eg1Value == 0 && V.eg1State == eEnvelopeStateMuted, "a muted voice stays silent"); break;
    }
    if (OV.eg1State >= eEnvelopeStateAttack && OV.eg1State != eEnvelopeStateHold && OV.eg1State <= eEnvelopeStateMuted) POST(V.eg1State >= OV.eg1State, "stages never go backwards");
    REACH();
}
//@ unit e03_eg2 prop=E03 harness=h_eg2 enforce=WT_UpdateEG2
void h_eg2(void)
{
    INPUT(V); INPUT(E); E.attackTime &= FS; E.decayTime &= FS; E.sustainLevel &= FS; E.releaseTime &= FS; V.eg2Value &= FS; V.eg2Increment &= FS; V.eg2State %= 10; OV = V;
    WT_UpdateEG2(&V, &E);
    long v = OV.eg2Value, i = OV.eg2Increment;
    POST(V.eg2Value >= 0 && v_same() && eg1_same(), "the level stays in range; nothing but this envelope changes");
    switch (OV.eg2State) {
    case eEnvelopeStateAttack:
        POST(V.eg2Value == lmin(v + i, FS), "attack rises linearly to full scale");
        POST(V.eg2State == (v + i >= FS ? eEnvelopeStateDecay : eEnvelopeStateAttack) && V.eg2Increment == (v + i >= FS ? E.decayTime : i), "full scale starts the decay");
        break;
    case eEnvelopeStateDecay:
        POST(V.eg2Value == lmax(v - i, E.sustainLevel) && V.eg2State == (v - i > E.sustainLevel ? eEnvelopeStateDecay : eEnvelopeStateSustain), "decay falls linearly to the sustain level, which is held");
        break;
    case eEnvelopeStateSustain: POST(eg2_same(), "the sustain level is held"); break;
    case eEnvelopeStateRelease: POST(V.eg2Value == lmax(v - i, 0) && V.eg2State == (v > i ? eEnvelopeStateRelease : eEnvelopeStateMuted), "release falls to zero and ends there"); break;
    case eEnvelopeStateMuted: POST(V.eg2Value == 0 && V.eg2State == eEnvelopeStateMuted, "a muted voice stays silent"); break;
    }
    REACH();
}
//@ unit e03_lfo prop=E03 harness=h_lfo enforce=WT_UpdateLFO
void h_lfo(void)
{
    INPUT(LF); INPUT(INC); OLF = LF; PRE(LF.lfoPhase >= 0 || LF.lfoValue == 0);
    WT_UpdateLFO(&LF, INC);
    long p = OLF.lfoPhase, q;
    if (p < 0) POST(LF.lfoValue == 0 && LF.lfoPhase == p + 1, "held at zero while the delay runs off");
    else {
        /* triangle: 0..8191 rises, 8192..24575 falls, 24576..32767 rises again */
        q = p <= 0x1fff ? p * 4 : p < 0x6000 ? 0x10000 - 1 - p * 4 : p * 4 - 0x20000;
        POST(LF.lfoValue == q, "the output is the triangle wave of the phase"); POST(LF.lfoPhase == ((p + INC) & 0x7fff), "the phase advances by its increment and wraps");
    }
    REACH();
}
static S_SYNTH S; static S_VOICE_MGR VM; static S_SYNTH_VOICE PV, OPV; static S_EAS LIB; static S_ARTICULATION ART[3]; static S_WT_REGION RGN[3]; static S_DLS DL; static S_DLS_ARTICULATION DART[3]; static S_DLS_REGION DRGN[3];
static EAS_U32 SOFF[3], SLEN[3]; static EAS_SAMPLE SMP[4];
static EAS_U8 N_V;
static EAS_U8 X_bad, PV_calls, CE_calls; static EAS_BOOL CE_ret;
static void world(void)
{
    INPUT(S); INPUT(PV); INPUT(V); INPUT(ART); INPUT(RGN); INPUT(DART); INPUT(DRGN); INPUT(SOFF); INPUT(SLEN); INPUT(N_V);
    N_V %= 3;
    *(const S_ARTICULATION **) &LIB.pArticulations = ART; *(const S_WT_REGION **) &LIB.pWTRegions = RGN; *(const EAS_U32 **) &LIB.pSampleOffsets = SOFF; *(const EAS_U32 **) &LIB.pSampleLen = SLEN; *(const EAS_SAMPLE **) &LIB.pSamples = SMP;
    S.pEAS = &LIB; S.pDLS = &DL; DL.pDLSArticulations = DART; DL.pDLSRegions = DRGN; DL.pDLSSampleOffsets = SOFF; DL.pDLSSampleLen = SLEN; DL.pDLSSamples = SMP;
    V.artIndex %= 3; RGN[0].artIndex *= 1; X_bad = PV_calls = CE_calls = 0;
    VM.wtVoices[N_V] = V; OV = V; OPV = PV;
}
#define BACK() (V = VM.wtVoices[N_V])
static int pv_same(unsigned flags, unsigned state) { return PV.regionIndex == OPV.regionIndex && PV.note == OPV.note && PV.channel == OPV.channel && PV.velocity == OPV.velocity && PV.age == OPV.age && PV.gain == OPV.gain && PV.nextChannel == OPV.nextChannel && PV.nextNote == OPV.nextNote && PV.nextVelocity == OPV.nextVelocity && PV.nextRegionIndex == OPV.nextRegionIndex && PV.voiceFlags == flags && PV.voiceState == state; }
//@ unit e03_release prop=E03,V01 harness=h_release enforce=WT_ReleaseVoice nochecks=undefined-shift kind=bounded bound=3_voices_and_3_articulations covers=DLS_ReleaseVoice
void h_release(void)
{
    world(); V.eg1Value &= FS; OV = V; VM.wtVoices[N_V] = V;
    WT_ReleaseVoice(&VM, &S, &PV, N_V); BACK();
    POST(v_same() && pv_same(OPV.voiceFlags, OPV.voiceState), "only the envelopes change");
    POST(V.eg1State == eEnvelopeStateRelease && V.eg2State == eEnvelopeStateRelease && V.eg2Value == OV.eg2Value, "both envelopes start their release");
    if (OPV.regionIndex & FLAG_RGN_IDX_DLS_SYNTH) {
        POST(V.eg1Increment == DART[V.artIndex].eg1.releaseTime && V.eg2Increment == DART[V.artIndex].eg2.releaseTime, "with the rate of the instrument");
        POST(V.eg1Value >= 0 && (OV.eg1State == eEnvelopeStateAttack || V.eg1Value == OV.eg1Value), "from the level reached");
    } else {
        POST(V.eg1Increment == ART[V.artIndex].eg1.releaseTime && V.eg2Increment == ART[V.artIndex].eg2.releaseTime, "with the rate of the instrument");
        POST(V.eg1Value == OV.eg1Value, "from the level reached");
    }
    REACH();
}
//@ unit e03_mute prop=E03,V01 harness=h_mute enforce=WT_MuteVoice kind=bounded bound=3_voices_and_3_articulations covers=DLS_MuteVoice
void h_mute(void)
{
    world();
    WT_MuteVoice(&VM, &S, &PV, N_V); BACK();
    POST(v_same() && pv_same(OPV.voiceFlags & ~(VOICE_FLAG_DEFER_MIDI_NOTE_OFF | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF | VOICE_FLAG_DEFER_MUTE), OPV.voiceState), "only the envelopes and the deferred actions change");
    if (OPV.regionIndex & FLAG_RGN_IDX_DLS_SYNTH) POST(V.eg1State == eEnvelopeStateRelease && V.eg1Increment == DART[V.artIndex].eg1ShutdownTime, "shut down quickly");
    else POST(V.eg1State == eEnvelopeStateMuted && V.eg2State == eEnvelopeStateMuted, "silenced");
    REACH();
}
//@ unit e03_pedal prop=E03,V01 harness=h_pedal enforce=WT_SustainPedal kind=bounded bound=3_voices_and_3_articulations covers=DLS_SustainPedal
void h_pedal(void)
{
    int below;
    world();
    below = V.eg1Value < (OPV.regionIndex & FLAG_RGN_IDX_DLS_SYNTH ? DART[V.artIndex].eg1.sustainLevel : ART[V.artIndex].eg1.sustainLevel);
    WT_SustainPedal(&VM, &S, &PV, &S.channels[0], N_V); BACK();
    POST(v_same() && eg2_same() && V.eg1Value == OV.eg1Value && V.eg1Increment == OV.eg1Increment, "the level is kept");
    if (below) POST(eg1_same() && pv_same(OPV.voiceFlags, OPV.voiceState), "a voice that has fallen below its sustain level is not caught");
    else POST(V.eg1State == eEnvelopeStateDecay && pv_same(OPV.voiceFlags | VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF, eVoiceStatePlay), "the voice sounds on and its note-off is held back");
    REACH();
}

/* every DLS articulation a parser can produce has rates and levels in 0..full scale (D01) */
//@ unit e03_start prop=E03,E02 harness=h_start enforce=WT_StartVoice kind=bounded bound=3_regions_and_articulations
static EAS_U16 RX;
void h_start(void)
{
    PANn = 0; world(); INPUT(RX); RX %= 3; RGN[0].artIndex %= 3; RGN[1].artIndex %= 3; RGN[2].artIndex %= 3; RGN[RX].waveIndex %= 3; PV.channel &= 15; OPV = PV;
    RGN[RX].loopStart &= 0xffffff; RGN[RX].loopEnd &= 0xffffff; SOFF[0] &= 0xffffff; SOFF[1] &= 0xffffff; SOFF[2] &= 0xffffff; SLEN[0] &= 0xffffff; SLEN[1] &= 0xffffff; SLEN[2] &= 0xffffff;
    S.channels[PV.channel].channelFlags &= ~CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    const S_WT_REGION *r = &RGN[RX]; const S_ARTICULATION *a = &ART[r->artIndex];
    EAS_RESULT res = WT_StartVoice(&VM, &S, &PV, N_V, RX); BACK();
    POST(res == EAS_SUCCESS && PV.regionIndex == RX && PV.voiceFlags == VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET && PV.gain == 0, "the voice starts silent on its region");
    POST(V.artIndex == r->artIndex && V.eg1State == eEnvelopeStateAttack && V.eg1Value == 0 && V.eg1Increment == a->eg1.attackTime && V.eg2State == eEnvelopeStateAttack && V.eg2Value == 0 && V.eg2Increment == a->eg2.attackTime, "both envelopes start their attack");
    POST(V.modLFO.lfoValue == 0 && V.modLFO.lfoPhase == (EAS_I16) -a->lfoDelay, "the LFO starts its delay");
    POST(PANn == 1 && PANv == S.channels[PV.channel].pan - 64 + a->pan && V.gainLeft == 11 && V.gainRight == 22, "the pan position adds up channel and instrument");
    POST(V.filter.z1 == 0 && V.filter.z2 == 0, "the filter starts empty");
    if (r->region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR) POST(V.loopStart == WT_NOISE_GENERATOR, "noise");
    else {
        EAS_U32 base = (EAS_U32) SMP + SOFF[r->waveIndex];
        POST(V.phaseAccum == base, "reading starts at the first sample of the waveform");
        if (r->region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED) POST(V.loopStart == base + r->loopStart * sizeof(EAS_SAMPLE) && V.loopEnd == base + (r->loopEnd - 1) * sizeof(EAS_SAMPLE), "the loop is the loop of the region");
        else POST(V.loopStart == V.loopEnd && V.loopEnd == base + SLEN[r->waveIndex] - sizeof(EAS_SAMPLE), "a one-shot ends with the last sample of its waveform");
    }
    REACH();
}

/* one render period of a built-in voice; each stage below has a contract of its own */
static EAS_U8 G1n, G2n, LFn, FLn, GAn, PHn, CEn; static EAS_U8 Q_state; static EAS_I32 Q_gain, Q_inc, Q_num, Q_cents; static EAS_BOOL Q_end; static EAS_I32 Q_cs;
void c_eg1(S_WT_VOICE *v, const S_ENVELOPE *e) { if (v != &VM.wtVoices[N_V] || e != &ART[v->artIndex].eg1) X_bad = 1; G1n++; v->eg1State = Q_state; }
void c_eg2(S_WT_VOICE *v, const S_ENVELOPE *e) { if (v != &VM.wtVoices[N_V] || e != &ART[v->artIndex].eg2) X_bad = 1; G2n++; }
void c_lfo(S_LFO_CONTROL *l, EAS_I16 i) { if (l != &VM.wtVoices[N_V].modLFO || i != ART[V.artIndex].lfoFreq) X_bad = 1; LFn++; }
void c_filter(S_WT_VOICE *v, S_WT_INT_FRAME *f, const S_ARTICULATION *a) { if (v != &VM.wtVoices[N_V] || a != &ART[v->artIndex]) X_bad = 1; FLn++; }
EAS_I32 c_gain(S_SYNTH_VOICE *pv, S_WT_VOICE *v, const S_ARTICULATION *a, S_SYNTH_CHANNEL *c, EAS_I32 g) { if (pv != &PV || v != &VM.wtVoices[N_V] || a != &ART[v->artIndex] || c != &S.channels[PV.channel & 15] || !G1n || !LFn) X_bad = 1; GAn++; return Q_gain; }
EAS_I32 c_pinc(S_WT_VOICE *v, const S_ARTICULATION *a, S_SYNTH_CHANNEL *c, EAS_I32 cents) { if (v != &VM.wtVoices[N_V] || a != &ART[v->artIndex] || c != &S.channels[PV.channel & 15] || !G2n || !LFn) X_bad = 1; PHn++; Q_cents = cents; return Q_inc; }
EAS_BOOL c_end(S_WT_VOICE *v, S_WT_INT_FRAME *f, EAS_BOOL u) { if (v != &VM.wtVoices[N_V]) X_bad = 1; CEn++; Q_cs = f->frame.phaseIncrement; f->numSamples = Q_num; return Q_end; }
//@ unit e03_update prop=E03,E02 harness=h_update enforce=WT_UpdateVoice replace=WT_UpdateEG1:c_eg1,WT_UpdateEG2:c_eg2,WT_UpdateLFO:c_lfo,WT_UpdateFilter:c_filter,WT_UpdateGain:c_gain,WT_UpdatePhaseInc:c_pinc,WT_CheckSampleEnd:c_end native=sub inline=0 kind=bounded bound=3_regions_and_articulations
static EAS_I32 MB[2]; static EAS_U8 L_filter;
void h_update(void)
{
    EAS_BOOL done; EAS_I32 len, want;
    world(); INPUT(Q_state); INPUT(Q_gain); INPUT(Q_inc); INPUT(Q_end); INPUT(Q_num); INPUT(L_filter);
    G1n = G2n = LFn = FLn = GAn = PHn = CEn = P_calls = 0; Q_state %= 10; Q_gain &= 32767; Q_inc &= 0xffffffff; PRE(Q_inc <= 0x80100000L); PRE(Q_num >= 0 && Q_num <= BUFFER_SIZE_IN_MONO_SAMPLES);
    *(EAS_U32 *) &LIB.libAttr = L_filter & 1 ? LIB_FORMAT_FILTER_ENABLED : 0;
    PV.regionIndex %= 3; PV.channel &= 15; PV.note &= 127; S.globalTranspose %= 26; OPV = PV; S.channels[PV.channel].staticPitch >>= 40;
    if (V.loopStart != WT_NOISE_GENERATOR) { V.loopStart &= 0xffffffffffffL; V.loopEnd = V.loopStart + (V.loopEnd & 0xfffffe); }
    VM.wtVoices[N_V] = V; OV = V;
    done = WT_UpdateVoice(&VM, &S, &PV, N_V, MB, BUFFER_SIZE_IN_MONO_SAMPLES); BACK();
    POST(!X_bad && G1n == 1 && G2n == 1 && LFn == 1 && GAn == 1 && PHn == 1 && FLn == (L_filter & 1), "every stage of the voice advances once, before it is used");
    POST(Q_cents == S.channels[PV.channel].staticPitch + RGN[PV.regionIndex].tuning + (PV.note + (S.channels[PV.channel].channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL ? 0 : S.globalTranspose)) * 100, "the pitch is the transposed key on the tuning of channel and region");
    POST(P_calls == 1 && P_gain == Q_gain && P_prev == OPV.gain, "one block is rendered, ramping from the last gain to the new one");
    len = OV.loopStart == WT_NOISE_GENERATOR ? 0 : (EAS_I32) (OV.loopEnd - OV.loopStart) / (EAS_I32) sizeof(EAS_SAMPLE);
    POST(P_inc >= 0 && (len == 0 ? P_inc == Q_inc : P_inc <= len << 15 && (Q_inc > len << 15 || P_inc == Q_inc)), "a step never passes the loop by more than its length");
    POST(CEn == (OV.loopStart != WT_NOISE_GENERATOR && len == 0) && P_n == (CEn ? Q_num : BUFFER_SIZE_IN_MONO_SAMPLES), "a one-shot is cut at its end, anything else fills the block");
    POST(PV.gain == (EAS_I16) Q_gain && PV.voiceFlags == (OPV.voiceFlags & ~VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET) && PV.voiceState == OPV.voiceState && PV.note == OPV.note && PV.channel == OPV.channel, "the gain reached is kept");
    POST(!!done == ((CEn && Q_end) || (OPV.voiceState != eVoiceStateStolen && Q_state == eEnvelopeStateMuted)), "a voice ends exactly when its envelope or its one-shot waveform ended");
    REACH();
}
/* where a one-shot waveform ends */
#ifndef STEP
#define STEP 0
#endif
//@ unit e02_end prop=E02 harness=h_end enforce=WT_CheckSampleEnd cases=UPD:0:1 timeout=300
//@ unit e02_end_inc prop=E02 harness=h_end enforce=WT_CheckSampleEnd cases=RINC:1:20000:32768:46341:1000000 timeout=300 kind=bounded bound=read_increments_1_20000_32768_46341_1000000
static EAS_I16 WV[2]; static S_WT_VOICE EV, OEV; static S_WT_INT_FRAME EF, OEF; static EAS_U32 E_left;
#ifndef UPD
#define UPD 0
#endif
void h_end(void)
{
    EAS_BOOL r; EAS_U32 endfrac; EAS_I32 d, n;
    INPUT(EV); INPUT(EF); INPUT(E_left); E_left &= 0xffffff; EV.phaseAccum &= 0xfffffffffffeUL; EV.phaseFrac &= 32767; EV.loopEnd = EV.phaseAccum + 2 * E_left;
#ifdef RINC
    EF.frame.phaseIncrement = RINC;
#else
    EF.frame.phaseIncrement &= 0xffffffff; PRE(EF.frame.phaseIncrement <= 0x80100000L);
#endif
    OEV = EV; OEF = EF;
    r = WT_CheckSampleEnd(&EV, &EF, UPD);
    endfrac = OEV.phaseFrac + ((EAS_U32) OEF.frame.phaseIncrement << SYNTH_UPDATE_PERIOD_IN_BITS);
    d = (EAS_I32) (E_left << 15) - (EAS_I32) OEV.phaseFrac; n = EF.numSamples;
    POST(!!r == ((endfrac >> 14) >= 2 * E_left), "a one-shot ends in the period in which the read position passes its last sample");
    if (!r) POST(n == OEF.numSamples, "before that the block is filled");
    else {
        POST(n >= 0 && n <= BUFFER_SIZE_IN_MONO_SAMPLES, "and the last block is not longer than a block");
#ifdef RINC
        if (n > 0 && n < BUFFER_SIZE_IN_MONO_SAMPLES) POST((n - 1) * RINC < d && n * RINC >= d, "it holds exactly the samples before the end");
        if (n == 0) POST(d <= 0, "none only when the end is reached already");
#endif
    }
    POST(EV.loopEnd == OEV.loopEnd && EV.loopStart == OEV.loopStart && EF.frame.phaseIncrement == OEF.frame.phaseIncrement && (UPD || (EV.phaseAccum == OEV.phaseAccum && EV.phaseFrac == OEV.phaseFrac)), "nothing else changes");
    REACH();
}
