/* M01 / M02: the MIDI byte-stream parser.  One step of the real parser from any state of the abstract decoder, for any
 * byte, performs exactly the step of the MIDI 1.0 decoder below; with the initial state this gives every byte sequence. */
//@ file unwind=4 fs=20 nlink= mode=plain timeout=120 solver=cadical
#include "kit.h"
#include "eas_data.h"
#include "eas_miditypes.h"
#include "eas_vm_protos.h"
#include "eas_midi.h"
static S_SYNTH SY0; static S_VOICE_MGR VM; static S_EAS_DATA ED; static S_MIDI_STREAM MS, OM; static EAS_U8 A_c; static EAS_INT A_mode; static EAS_RESULT R_res;
/* what reached the synthesizer */
enum { K_NONE, K_OFF, K_ON, K_CC, K_PC, K_CP, K_PB, K_RESET, K_INITMIP, K_SETMIP, K_UPDMIP, K_VOL };
static unsigned N_calls, CB, K_kind[3], K_a[3], K_b[3], K_c[3];
static void rec(int ok, unsigned kind, unsigned a, unsigned b, unsigned c) { if (!ok || N_calls >= 3) { CB = 1; return; } K_kind[N_calls] = kind; K_a[N_calls] = a; K_b[N_calls] = b; K_c[N_calls] = c; N_calls++; }
void VMStopNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m == &VM && s == &SY0, K_OFF, ch, n, v); }
void VMStartNote(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m == &VM && s == &SY0, K_ON, ch, n, v); }
void VMControlChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 n, EAS_U8 v) { rec(m == &VM && s == &SY0, K_CC, ch, n, v); }
void VMProgramChange(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 p) { rec(m == &VM && s == &SY0, K_PC, ch, p, 0); }
void VMChannelPressure(S_SYNTH *s, EAS_U8 ch, EAS_U8 v) { rec(s == &SY0, K_CP, ch, v, 0); }
void VMPitchBend(S_SYNTH *s, EAS_U8 ch, EAS_U8 l, EAS_U8 m) { rec(s == &SY0, K_PB, ch, l, m); }
void VMReset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL force) { rec(m == &VM && s == &SY0, K_RESET, force != 0, 0, 0); }
void VMInitMIPTable(S_SYNTH *s) { rec(s == &SY0, K_INITMIP, 0, 0, 0); }
void VMSetMIPEntry(S_VOICE_MGR *m, S_SYNTH *s, EAS_U8 ch, EAS_U8 slot, EAS_U8 mip) { rec(m == &VM && s == &SY0, K_SETMIP, ch, slot, mip); }
void VMUpdateMIPTable(S_VOICE_MGR *m, S_SYNTH *s) { rec(m == &VM && s == &SY0, K_UPDMIP, 0, 0, 0); }
void VMSetVolume(S_SYNTH *s, EAS_U16 v) { rec(s == &SY0, K_VOL, v, 0, 0); }
#include "eas_midi.c"

/* ---- the abstract decoder ---- */
static EAS_U8 D_run, D_msg, D_have, D_d1;      /* status in force (0 none), message being completed, is one data byte missing, first data byte */
SPEC_BEGIN
static int is3(unsigned s) { return s < 0xc0 || (s >= 0xe0 && s < 0xf0); }
/* the concrete state represents the abstract one */
static int rel(void)
{
    if (MS.runningStatus != D_run) return 0;
    if ((MS.byte3 != 0) != (D_have != 0)) return 0;
    if (D_have && MS.status != D_msg) return 0;
    if (D_have && D_msg < 0xf0 && MS.d1 != D_d1) return 0;
    if (D_have && D_msg < 0xf0 && !MS.pending) return 0;           /* the file parser must go on reading */
    return 1;
}
static int inv(void) { return (D_run == 0 || (D_run >= 0x80 && D_run < 0xf8)) && (!D_have || (D_msg == 0xf2 && D_run == 0) || (D_msg >= 0x80 && D_msg < 0xf0 && is3(D_msg) && D_run == D_msg)) && D_d1 < 128; }
static unsigned X_kind, X_a, X_b, X_c, X_first;
static void dispatch(unsigned st, unsigned d1, unsigned d2)
{
    unsigned ch = st & 15;
    X_a = ch; X_b = d1; X_c = d2;
    if (A_mode == eParserModeMetaData) return;
    switch (st >> 4) {
    case 8: X_kind = K_OFF; break;
    case 9: if (d2) { X_first = 1; X_kind = A_mode == eParserModePlay ? K_ON : K_NONE; } else X_kind = K_OFF; break;
    case 11: X_kind = K_CC; break;
    case 12: X_kind = K_PC; X_c = 0; break;
    case 13: X_kind = K_CP; X_c = 0; break;
    case 14: X_kind = K_PB; break;
    default: X_kind = K_NONE;
    }
}
static int D_done;                 /* the byte completed a message (or was meaningless): the file parser may stop reading */
static void step(EAS_U8 c)
{
    X_kind = K_NONE; X_first = 0; D_done = 0;
    if (c >= 0xf8) return;
    if (c >= 0x80) { D_run = c; D_have = 0; return; }
    if (D_have) { D_have = 0; D_done = 1; if (D_msg < 0xf0) dispatch(D_msg, D_d1, c); return; }
    if (D_run >= 0x80 && D_run < 0xf0) {
        if (is3(D_run)) { D_msg = D_run; D_d1 = c; D_have = 1; } else { D_done = 1; dispatch(D_run, c, 0); }
        return;
    }
    if (D_run == 0xf0) return;     /* system exclusive: M02 */
    if (D_run == 0xf2) { D_run = 0; D_msg = 0xf2; D_have = 1; return; }
    D_run = 0; D_done = 1;
}
SPEC_END
static void world(void)
{
    ED.pVoiceMgr = &VM; N_calls = CB = 0; INPUT(MS); INPUT(A_c); INPUT(A_mode);
#ifdef MODE
    A_mode = MODE;
#else
    A_mode &= 3;
#endif
}
//@ unit m01_init prop=M01 harness=h_init enforce=EAS_InitMIDIStream
void h_init(void)
{
    INPUT(MS); OM = MS;
    EAS_InitMIDIStream(&MS);
    D_run = D_have = 0;
    POST(rel() && !MS.pending, "a fresh parser has no status and no message in progress");
    POST(MS.flags == OM.flags, "flags are the caller's");
    REACH();
}
//@ unit m01_step prop=M01 harness=h_step enforce=EAS_ParseMIDIStream
void h_step(void)
{
    world(); INPUT(D_run); INPUT(D_msg); INPUT(D_have); INPUT(D_d1);
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U8 st[] = {0,0x80,0x91,0x92,0xa3,0xb4,0xc5,0xd6,0xe7,0xf0,0xf1,0xf2,0xf3,0xf6,0xf7}; D_run = st[vk_rand() % 15]; D_have = vk_rand() & 1; if (D_have) { D_msg = D_run; if (D_run == 0 || D_run == 0xf2) { D_run = 0; D_msg = 0xf2; } if (D_msg != 0xf2 && (D_msg >= 0xf0 || !is3(D_msg))) D_have = 0; }
      D_d1 &= 127; MS.byte3 = D_have; MS.runningStatus = D_run; MS.status = D_msg; MS.d1 = D_d1; MS.pending = 1; if (vk_rand() % 3) A_c &= 127; if (!(vk_rand() % 4)) A_c = 0; }
#endif
    PRE(inv() && rel()); OM = MS;
    R_res = EAS_ParseMIDIStream(&ED, &SY0, &MS, A_c, A_mode);
    {
        int sysex = A_c < 0xf8 && (A_c == 0xf0 || A_c == 0xf7 || (A_c < 0x80 && D_run == 0xf0 && !D_have));
        step(A_c);
        POST(R_res == EAS_SUCCESS, "no byte is an error");
        POST(!CB, "only this stream's synthesizer is addressed");
        POST(inv() && rel(), "the parser state is the decoder state: running status, message in progress, first data byte");
        if (A_c >= 0xf8) POST(MS.byte3 == OM.byte3 && MS.pending == OM.pending && MS.runningStatus == OM.runningStatus && MS.status == OM.status && MS.d1 == OM.d1 && MS.d2 == OM.d2 && MS.sysExState == OM.sysExState && MS.flags == OM.flags && N_calls == 0, "real-time bytes disturb nothing");
        if (A_mode == eParserModeMetaData) POST(N_calls == 0, "gathering metadata reaches no synthesizer");
        if (!sysex) {
            POST(N_calls == (X_kind != K_NONE), "a complete channel message is dispatched exactly once, nothing else is");
            if (X_kind != K_NONE) POST(K_kind[0] == X_kind && K_a[0] == X_a && K_b[0] == X_b && K_c[0] == X_c, "with its own kind, channel and data");
            POST(MS.flags == (OM.flags | (X_first ? MIDI_FLAG_FIRST_NOTE : 0)), "the first note is remembered");
            if (D_done) POST(!MS.pending, "the message is complete");
            if (A_c >= 0x80 && A_c < 0xf0) POST(MS.pending, "more data expected after a status byte");
        } else
            POST(N_calls == 0 || (K_kind[0] >= K_RESET), "system-exclusive data is no channel message");
    }
    REACH();
}
/* ---- system exclusive: abstract recogniser ---- */
enum { G_IDLE, G_START, G_7E, G_7E7F, G_7E7F09, G_7F, G_7F7F, G_7F7F04, G_7F7F0401, G_VOL, G_7F7F0B, G_TAB, G_TABMIP, G_OTHER };
static EAS_U8 G_st, G_k, G_ch, G_lsb;  /* recogniser state, complete table entries, channel of the entry, volume LSB */
SPEC_BEGIN
static int srel(void)
{
    EAS_U8 s = MS.sysExState;
    switch (G_st) {
    case G_START: return s == eSysEx;
    case G_7E: return s == eSysExUnivNonRealTime;
    case G_7E7F: return s == eSysExUnivNrtTargetID;
    case G_7E7F09: return s == eSysExGMControl;
    case G_7F: return s == eSysExUnivRealTime;
    case G_7F7F: return s == eSysExUnivRtTargetID;
    case G_7F7F04: return s == eSysExDeviceControl;
    case G_7F7F0401: return s == eSysExMasterVolume;
    case G_VOL: return s == eSysExMasterVolLSB && MS.d1 == G_lsb;
    case G_7F7F0B: return s == eSysExSPMIDI;
    case G_TAB: return s == eSysExSPMIDIchan && MS.d1 == G_k;
    case G_TABMIP: return s == eSysExSPMIDIMIP && MS.d1 == G_k && MS.d2 == G_ch;
    default: return s >= eSysExMfgID1 && s <= eSysExIgnore;       /* idle, complete or of no interest: without effect */
    }
}
static int sinv(void) { return G_st <= G_OTHER && G_k < 16 && G_ch < 16 && G_lsb < 128; }
static unsigned E_n, E_kind[3], E_a[3], E_b[3], E_c[3], E_gm;
static void eff(unsigned kind, unsigned a, unsigned b, unsigned c) { E_kind[E_n] = kind; E_a[E_n] = a; E_b[E_n] = b; E_c[E_n] = c; E_n++; }
static void sstep(EAS_U8 c)
{
    E_n = E_gm = 0;
    if (c >= 0xf8) return;
    if (c == 0xf0) { G_st = G_START; return; }
    if (c == 0xf7) { if (G_st == G_TAB) eff(K_UPDMIP, 0, 0, 0); G_st = G_IDLE; return; }
    if (c >= 0x80) { G_st = G_IDLE; return; }
    switch (G_st) {
    case G_START: G_st = c == 0x7e ? G_7E : c == 0x7f ? G_7F : G_OTHER; break;
    case G_7E: G_st = c == 0x7f ? G_7E7F : G_OTHER; break;
    case G_7E7F: G_st = c == 9 ? G_7E7F09 : G_OTHER; break;
    case G_7E7F09: if (c == 1 || c == 3) { eff(K_RESET, 0, 0, 0); eff(K_INITMIP, 0, 0, 0); E_gm = 1; } G_st = G_OTHER; break;
    case G_7F: G_st = c == 0x7f ? G_7F7F : G_OTHER; break;
    case G_7F7F: G_st = c == 4 ? G_7F7F04 : c == 0x0b ? G_7F7F0B : G_OTHER; break;
    case G_7F7F04: G_st = c == 1 ? G_7F7F0401 : G_OTHER; break;
    case G_7F7F0401: G_lsb = c; G_st = G_VOL; break;
    case G_VOL: { unsigned long g = (unsigned long) c * 256 + G_lsb * 2; eff(K_VOL, (unsigned) (g * g / 32768), 0, 0); G_st = G_OTHER; break; }
    case G_7F7F0B: if (c == 1) { eff(K_INITMIP, 0, 0, 0); G_k = 0; G_st = G_TAB; } else G_st = G_OTHER; break;
    case G_TAB: if (c < 16) { G_ch = c; G_st = G_TABMIP; } else { eff(K_INITMIP, 0, 0, 0); G_st = G_OTHER; } break;
    case G_TABMIP: eff(K_SETMIP, G_ch, G_k, c); if (++G_k == 16) { eff(K_UPDMIP, 0, 0, 0); G_k = 0; G_st = G_OTHER; } else G_st = G_TAB; break;
    default: break;
    }
}
SPEC_END
//@ unit m02_init prop=M02 harness=h_sinit enforce=EAS_InitMIDIStream
void h_sinit(void)
{
    INPUT(MS);
    EAS_InitMIDIStream(&MS); G_st = G_IDLE;
    POST(srel(), "a fresh parser is in no system-exclusive message");
    REACH();
}
//@ unit m02_step prop=M02 harness=h_sstep enforce=EAS_ParseMIDIStream
void h_sstep(void)
{
    unsigned i; int data;
    world(); INPUT(G_st); INPUT(G_k); INPUT(G_ch); INPUT(G_lsb); INPUT(D_run); INPUT(D_msg); INPUT(D_have); INPUT(D_d1);
    A_mode %= 3;                                   /* metadata mode reaches nothing: M01 */
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U8 cs[] = {0,1,3,4,9,0xb,0x7e,0x7f,0xf0,0xf7,0x90,0xf8,0x20}; static const EAS_U8 map[] = { eSysExIgnore, eSysEx, eSysExUnivNonRealTime, eSysExUnivNrtTargetID, eSysExGMControl, eSysExUnivRealTime, eSysExUnivRtTargetID, eSysExDeviceControl, eSysExMasterVolume, eSysExMasterVolLSB, eSysExSPMIDI, eSysExSPMIDIchan, eSysExSPMIDIMIP, eSysExIgnore };
      G_st %= 14; G_k &= 15; G_ch &= 15; G_lsb &= 127; D_d1 &= 127; if (vk_rand() & 1) A_c = cs[vk_rand() % 13]; MS.sysExState = map[G_st]; D_run = 0xf0; D_have = 0; if (G_st == G_IDLE) { D_run = 0x90; } MS.runningStatus = D_run; MS.byte3 = 0; MS.d1 = G_st == G_VOL ? G_lsb : G_k; MS.d2 = G_ch; }
#endif
    PRE(inv() && rel() && sinv() && srel());
    PRE(D_run == 0xf0 || G_st == G_IDLE);          /* inside a message exactly while its start byte is the status in force */
    OM = MS; data = A_c < 0x80;
    R_res = EAS_ParseMIDIStream(&ED, &SY0, &MS, A_c, A_mode);
    if (data && D_run != 0xf0) { step(A_c); E_n = E_gm = 0; for (i = 0; i < N_calls && i < 3; i++) POST(K_kind[i] < K_RESET, "data outside a system-exclusive message has no such effect"); }
    else {
        step(A_c); sstep(A_c);
        POST(!CB && N_calls == E_n, "exactly the effects of the message recognised, at its last byte");
        for (i = 0; i < E_n; i++) POST(K_kind[i] == E_kind[i] && K_a[i] == E_a[i] && K_b[i] == E_b[i] && K_c[i] == E_c[i], "effect and value");
        POST(MS.flags == (OM.flags | (E_gm ? MIDI_FLAG_GM_ON : 0)), "GM on is remembered");
    }
    POST(R_res == EAS_SUCCESS, "no byte is an error");
    POST(sinv() && srel(), "the parser follows the recogniser");
    POST(D_run == 0xf0 || G_st == G_IDLE, "every status byte but a real-time one ends the message");
    REACH();
}
