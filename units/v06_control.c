/* V06: controllers, pitch bend, pressure */
//@ file unwind=17 fs=20 nlink= mode=plain timeout=300 solver=cadical
#include "vmworld.h"
#include "vmstubs.h"
#include "eas_voicemgt.c"
static EAS_U8 A_ch, A_cc, A_val, A_val2, N_up, N_down, N_off, CC_bad; static S_SYNTH *CS;
/* the pedal and all-notes-off work on voices (their own contracts: V01, V02); here they are only remembered */
void c_up(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch) { if (s != &S0 || ch != A_ch || m != &VM) CC_bad = 1; N_up++; }
void c_down(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch) { if (s != &S0 || ch != A_ch || m != &VM) CC_bad = 1; N_down++; }
void c_off(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch) { if (s != &S0 || ch != A_ch || m != &VM) CC_bad = 1; N_off++; }
/* natively the voice functions work on an engine without sounding voices */
static void start(void)
{
    unsigned i;
    INPUT(S0); INPUT(A_ch); INPUT(A_cc); INPUT(A_val); INPUT(A_val2);
    A_ch &= 15;
#ifdef CHN
    A_ch = CHN;       /* exhaustive split over the 16 channels */
#endif
    A_cc &= 127; A_val &= 127; A_val2 &= 127; S0.vSynthNum = 0; S0.pEAS = NULL; S0.pDLS = NULL;
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U8 cc[] = {0,1,6,7,10,11,32,38,64,98,99,100,101,120,121,123,64,6,100,101}; if (vk_rand() % 4) A_cc = cc[vk_rand() % 20]; 
      if (vk_rand() & 1) S0.channels[A_ch].registeredParam = vk_rand() % 4; }
#endif
    for (i = 0; i < 16; i++) S0.channels[i].pool &= 15;
    VM.pSynth[0] = &S0;
    for (i = 0; i < MAX_SYNTH_VOICES && VK_IS_NATIVE; i++) VM.voices[i].voiceState = eVoiceStateFree;
    O0 = S0; N_up = N_down = N_off = CC_bad = 0;
}
SPEC_BEGIN
static int upd_flag(void) { return (S0.channels[A_ch].channelFlags & CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS) != 0; }
#define EC (O0.channels[A_ch])
static void expect_rpn(EAS_U8 cc, EAS_U8 v)
{
    switch (cc) {
    case 98: case 99: EC.registeredParam = 0x3fff; break;
    case 101: EC.registeredParam = (EC.registeredParam & 0x7f) | v << 7; break;
    case 100: EC.registeredParam = (EC.registeredParam & 0x3f80) | v; break;
    case 6:
        if (EC.registeredParam == 0) EC.pitchBendSensitivity = v * 100;                              /* semitones */
        else if (EC.registeredParam == 1) EC.finePitch = (EAS_I8) (v >= 64 ? (v - 64) * 100 / 64 : -((64 - v) * 100 + 63) / 64); /* -100..+98 cents, rounded down */
        else if (EC.registeredParam == 2) EC.coarsePitch = (EAS_I8) (v - 64);
        break;
    }
}
static int want_up, want_down, want_off;
static void expect_cc(EAS_U8 cc, EAS_U8 v)
{
    want_up = want_down = want_off = 0;
    EC.channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    switch (cc) {
    case 0: EC.bankNum = v << 8; break;
    case 1: EC.modWheel = v; break;
    case 7: EC.volume = v; break;
    case 10: EC.pan = v; break;
    case 11: EC.expression = v; break;
    case 32: EC.bankNum = (EC.bankNum & 0xff00) | v; break;
    case 64:
        if (v < 64) { want_up = (EC.channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) != 0; EC.channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL; }
        else { want_down = !(EC.channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL); EC.channelFlags |= CHANNEL_FLAG_SUSTAIN_PEDAL; }
        break;
    case 121:
        want_up = (EC.channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL) != 0;
        EC.channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
        EC.modWheel = 0; EC.expression = 127; EC.pitchBend = 0x2000; EC.channelPressure = 0;
        EC.registeredParam = 0x3fff; EC.pitchBendSensitivity = 200; EC.finePitch = 0; EC.coarsePitch = 0;
        break;
    case 120: case 123: case 124: case 125: case 126: case 127: want_off = 1; break;
    default: expect_rpn(cc, v);
    }
}
SPEC_END
//@ unit v06_control prop=V06 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_control enforce=VMControlChange replace=VMReleaseAllDeferredNoteOffs:c_up,VMCatchNotesForSustainPedal:c_down,VMAllNotesOff:c_off covers=VMUpdateRPNStateMachine nochecks=undefined-shift
void h_control(void)
{
    start();
    VMControlChange(&VM, &S0, A_ch, A_cc, A_val);
    expect_cc(A_cc, A_val);
    POST(upd_flag(), "the voices of the channel are updated");
    POST(syn_eq(&S0, &O0), "exactly the named controller of the channel changes");
#if !defined(VK_NATIVE) && !defined(VK_INLINED)
    POST(!CC_bad && N_off == want_off && N_up <= 1 && N_down <= 1 && N_up >= want_up && N_down >= want_down, "pedal and all-notes-off reach the voices of that channel");
    /* releasing without the pedal down, or catching with it down, is allowed only if the pedal state says so */
    POST(N_up == want_up && N_down == want_down, "the pedal acts on its transitions");
#endif
    REACH();
}
//@ unit v06_rpn prop=V06 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_rpn enforce=VMUpdateRPNStateMachine nochecks=undefined-shift
void h_rpn(void)
{
    EAS_RESULT r;
    start();
    r = VMUpdateRPNStateMachine(&S0, A_ch, A_cc, A_val);
    expect_rpn(A_cc, A_val);
    POST(syn_eq(&S0, &O0), "data entry acts on the selected registered parameter only");
    POST((r == EAS_SUCCESS) == (A_cc == 6 || A_cc == 38 || (A_cc >= 98 && A_cc <= 101)), "result");
    REACH();
}
/* history: two-byte RPN select then data entry, whatever was selected before */
//@ unit v06_rpnseq prop=V06 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_rpnseq covers=VMUpdateRPNStateMachine,VMControlChange nochecks=undefined-shift replace=VMReleaseAllDeferredNoteOffs:c_up,VMCatchNotesForSustainPedal:c_down,VMAllNotesOff:c_off
static EAS_U8 A_lsbfirst;
void h_rpnseq(void)
{
    unsigned p;
    start(); INPUT(A_lsbfirst);
    p = A_val2 == 127 && (A_cc & 127) == 127 ? 0x3fff : (unsigned) A_val2 << 7 | A_cc;
    if (A_lsbfirst) { VMControlChange(&VM, &S0, A_ch, 100, A_cc); VMControlChange(&VM, &S0, A_ch, 101, A_val2); }
    else { VMControlChange(&VM, &S0, A_ch, 101, A_val2); VMControlChange(&VM, &S0, A_ch, 100, A_cc); }
    VMControlChange(&VM, &S0, A_ch, 6, A_val);
    EC.registeredParam = p; EC.channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    expect_rpn(6, A_val);
    PROVE(syn_eq(&S0, &O0), "the data entry reached the parameter selected by the last MSB and LSB, and no other");
    REACH();
}
//@ unit v06_bend prop=V06 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_bend enforce=VMPitchBend nochecks=undefined-shift
void h_bend(void)
{
    start();
    VMPitchBend(&S0, A_ch, A_val, A_val2);
    EC.pitchBend = A_val2 * 128 + A_val; EC.channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    POST(upd_flag(), "the voices of the channel are updated"); POST(syn_eq(&S0, &O0), "pitch bend is the 14-bit value");
    REACH();
}
//@ unit v06_press prop=V06 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_press enforce=VMChannelPressure
void h_press(void)
{
    start();
    VMChannelPressure(&S0, A_ch, A_val);
    EC.channelPressure = A_val; EC.channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    POST(upd_flag(), "the voices of the channel are updated"); POST(syn_eq(&S0, &O0), "channel pressure is the received value");
    REACH();
}
//@ unit v06_reset prop=V06 harness=h_reset enforce=VMResetControllers
void h_reset(void)
{
    unsigned c;
    start();
    VMResetControllers(&S0);
    for (c = 0; c < 16; c++) {
        S_SYNTH_CHANNEL *e = &O0.channels[c];
        e->pitchBend = 0x2000; e->modWheel = 0; e->volume = 100; e->pan = 64; e->expression = 127; e->channelPressure = 0;
        e->registeredParam = 0x3fff; e->pitchBendSensitivity = 200; e->finePitch = 0; e->coarsePitch = 0;
        e->channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    }
    POST(syn_eq(&S0, &O0), "every controller of every channel has its default; nothing else changes");
    REACH();
}
