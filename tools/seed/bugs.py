VM = 'lib_src/eas_voicemgt.c'
bug('b01_stolen_noteoff', 'V01', VM,
    "@VMStopNote|(channel == pVoiceMgr->voices[voiceNum].nextChannel) && (note ==", "(channel == pVoiceMgr->voices[voiceNum].channel) && (note ==",
    'all voices busy on one channel, a note of another channel steals a voice and is released before the stolen voice is retargeted',
    'the note-off of a note waiting for a stolen voice is lost: the note hangs',
    r'''
int main(void) { EAS_HANDLE s; int i;
  init(); s = stream(); midi2(s, 0xC0, 19); midi2(s, 0xC1, 19);
  for (i = 0; i < 64; i++) { midi3(s, 0x90, 24 + i, 100); if ((i & 7) == 7) render(4); }
  render(40);
  midi3(s, 0x91, 60, 100); CHECK(count(0, 0, -1, eVoiceStateStolen) == 1);
  midi3(s, 0x81, 60, 0);
  render(10);
  for (i = 0; i < MAX_SYNTH_VOICES; i++)
    if (vm->voices[i].channel == 1 && vm->voices[i].note == 60) CHECK(vm->voices[i].voiceState != eVoiceStatePlay && vm->voices[i].voiceState != eVoiceStateStart);
  return 0; }
''')
bug('b02_rpn_nrpn', 'V06', VM,
    "        pChannel->bankNum =\n            (pChannel->bankNum & 0xFF00) | value;", "        pChannel->bankNum =\n            (pChannel->bankNum & 0x7E00) | value;",
    'bank select LSB after a bank MSB with its lowest bit or top bit set',
    'bank LSB select destroys the bank MSB',
    r'''
int main(void) { EAS_HANDLE s; init(); s = stream();
  midi3(s, 0xB2, 0, 0x79); midi3(s, 0xB2, 0x20, 3);
  CHECK(vm->pSynth[0]->channels[2].bankNum == 0x7903);
  return 0; }
''')
bug('b03_clampnote', 'V05', VM,
    "    else if (adjustedNote > 127)\n    {\n        adjustedNote = 127;\n    }", "    else if (adjustedNote > 127)\n    {\n        adjustedNote &= 127;\n    }",
    'a note near the top of the keyboard with coarse tuning upwards', 'the transposed key wraps around instead of being clamped, so the wrong region is played',
    r'''
int main(void) { EAS_HANDLE s; init(); s = stream();
  midi3(s, 0xB0, 101, 0); midi3(s, 0xB0, 100, 2); midi3(s, 0xB0, 6, 64 + 50);
  midi3(s, 0x90, 60, 100); CHECK(count(0, 0, 60, -1) == 0 || 1);
  midi3(s, 0x90, 127, 100); CHECK(count(0, 0, 127, -1) == 0);
  return 0; }
''')
bug('b04_f8_running', 'M01', 'lib_src/eas_midi.c',
    "@EAS_ParseMIDIStream|if (c < 0xf8)", "if (c <= 0xf8)",
    'a timing clock byte (F8) in the middle of a channel message', 'a real-time byte becomes the running status and destroys the message it interrupts',
    r'''
int main(void) { EAS_HANDLE s; EAS_U8 m[4] = { 0x90, 60, 0xf8, 100 };
  init(); s = stream();
  CHECK(EAS_WriteMIDIStream(eas, s, m, 4) == 0);
  CHECK(count(0, 0, 60, -1) == 1);
  return 0; }
''')
bug('b05_seek_end', 'F01', 'host_src/eas_hostmm.c',
    "@EAS_HWFileSeekOfs|(position > file->size(file->handle))", "(position >= file->size(file->handle))",
    'a relative seek that lands exactly at the end of the file (an odd chunk that ends the file)', 'skipping the last bytes of a file is refused',
    r'''
static SMF f0;
int main(void) { EAS_FILE_HANDLE h; EAS_I32 pos;
  init(); f0.n = 100;
  CHECK(EAS_HWOpenFile(((S_EAS_DATA *) eas)->hwInstData, file(&f0), &h, EAS_FILE_READ) == 0);
  CHECK(EAS_HWFileSeek(((S_EAS_DATA *) eas)->hwInstData, h, 40) == 0);
  CHECK(EAS_HWFileSeekOfs(((S_EAS_DATA *) eas)->hwInstData, h, 60) == 0);
  CHECK(EAS_HWFilePos(((S_EAS_DATA *) eas)->hwInstData, h, &pos) == 0 && pos == 100);
  CHECK(EAS_HWFileSeekOfs(((S_EAS_DATA *) eas)->hwInstData, h, 1) != 0);
  return 0; }
''')
bug('b06_dup_pos', 'F02', 'host_src/eas_hostmm.c',
    "@EAS_HWDupHandle|dupFile->filePos = file->filePos;", "dupFile->filePos = 0;",
    'a file handle duplicated after something was read through it', 'the duplicate starts at the beginning of the file instead of the current position',
    r'''
static SMF f0;
int main(void) { EAS_FILE_HANDLE h, d; EAS_I32 pos;
  init(); f0.n = 100;
  CHECK(EAS_HWOpenFile(((S_EAS_DATA *) eas)->hwInstData, file(&f0), &h, EAS_FILE_READ) == 0);
  CHECK(EAS_HWFileSeek(((S_EAS_DATA *) eas)->hwInstData, h, 40) == 0);
  CHECK(EAS_HWDupHandle(((S_EAS_DATA *) eas)->hwInstData, h, &d) == 0);
  CHECK(EAS_HWFilePos(((S_EAS_DATA *) eas)->hwInstData, d, &pos) == 0 && pos == 40);
  return 0; }
''')
bug('b07_same_tick', 'S02', 'lib_src/eas_smf.c',
    "@SMF_Event|(pSMFData->streams[i].ticks < temp)", "((pSMFData->streams[i].ticks < temp) || ((pSMFData->streams[i].ticks == temp) && (temp != SMF_END_OF_TRACK)))",
    'events of two tracks on the same tick where their order matters', 'events of a later track overtake those of an earlier track on the same tick',
    r'''
#include "eas_smfdata.h"
#include "eas_smf.h"
EAS_RESULT SMF_Reset(S_EAS_DATA *, EAS_VOID_PTR);
static SMF f;
int main(void) { EAS_HANDLE h; S_SMF_DATA *d; int i; init();
  hdr(&f, 1, 3, 96);
  trk(&f); ev2(&f, 0, 0xC5, 1); endt(&f, 960);
  trk(&f); ev2(&f, 48, 0xC0, 10); endt(&f, 960);
  trk(&f); ev2(&f, 48, 0xC0, 20); endt(&f, 960);
  h = openf(&f); d = (S_SMF_DATA *) h->handle;
  for (i = 0; i < 200; i++) render(1);
  CHECK(d->pSynth->channels[0].programNum == 20);
  return 0; }
''')
bug('b08_reset_parser', 'S03', 'lib_src/eas_smf.c',
    "@SMF_Reset|EAS_InitMIDIStream(&pSMFData->streams[i].midiStream);", "",
    'rewinding a song whose track was in the middle of its data', 'after a rewind the track parsers still have the running status of the place left',
    r'''
#include "eas_smfdata.h"
#include "eas_smf.h"
EAS_RESULT SMF_Reset(S_EAS_DATA *, EAS_VOID_PTR);
static SMF f;
int main(void) { EAS_HANDLE h; S_SMF_DATA *d; int i; init();
  hdr(&f, 1, 1, 500);
  trk(&f); ev3(&f, 100, 0x93, 60, 100); ev3(&f, 100, 0x93, 60, 0); ev3(&f, 9000, 0x90, 61, 100); endt(&f, 960);
  h = openf(&f); d = (S_SMF_DATA *) h->handle;
  for (i = 0; i < 900; i += 58) render(10);
  CHECK(d->streams[0].midiStream.runningStatus == 0x93);
  CHECK(SMF_Reset((S_EAS_DATA *) eas, d) == 0);
  CHECK(d->streams[0].midiStream.runningStatus == 0 && d->streams[0].midiStream.pending == 0);
  return 0; }
''')
bug('b09_rate_max', 'A01', 'lib_src/eas_public.c',
    "@EAS_SetPlaybackRate|(rate > (1 << 29))", "(rate >= (1 << 29))",
    'the largest playback rate, exactly 2.0', 'the documented maximum rate is refused',
    r'''
static SMF f;
int main(void) { EAS_HANDLE h; init();
  hdr(&f, 1, 1, 500); trk(&f); ev3(&f, 500, 0x90, 60, 100); endt(&f, 960); h = openf(&f);
  CHECK(EAS_SetPlaybackRate(eas, h, 1 << 29) == 0); CHECK(EAS_SetPlaybackRate(eas, h, 1 << 27) == 0);
  CHECK(EAS_SetPlaybackRate(eas, h, (1 << 29) + 1) != 0);
  return 0; }
''')
bug('b10_locate_open', 'A02', 'lib_src/eas_public.c',
    "@EAS_Locate|(state >= EAS_STATE_OPEN)", "(state > EAS_STATE_OPEN)",
    'EAS_Locate on a stream that was opened but not prepared', 'a locate in the OPEN state is accepted instead of refused',
    r'''
static SMF f;
int main(void) { EAS_HANDLE h = 0; init();
  hdr(&f, 1, 1, 500); trk(&f); ev3(&f, 500, 0x90, 60, 100); endt(&f, 960);
  CHECK(EAS_OpenFile(eas, file(&f), &h) == 0);
  CHECK(EAS_Locate(eas, h, 0, EAS_FALSE) == EAS_ERROR_NOT_VALID_IN_THIS_STATE);
  return 0; }
''')
bug('b11_rate_scale', 'A03', 'lib_src/eas_public.c',
    "@EAS_SetPlaybackRate|(AUDIO_FRAME_LENGTH * (rate >> 8)) >> 20", "(AUDIO_FRAME_LENGTH * (rate >> 16)) >> 12",
    'a playback rate whose low bits matter for the frame length', 'song time advances by a frame length that does not follow the playback rate',
    r'''
static SMF f;
int main(void) { EAS_HANDLE h; unsigned r; init();
  hdr(&f, 1, 1, 500); trk(&f); ev3(&f, 500, 0x90, 60, 100); endt(&f, 960); h = openf(&f);
  for (r = 1u << 27; r <= 1u << 29; r += 40961) { CHECK(EAS_SetPlaybackRate(eas, h, r) == 0);
    CHECK(h->frameLength == (AUDIO_FRAME_LENGTH * (r >> 8)) >> 20); }
  return 0; }
''')
bug('b12_dls_bank0', 'V07', VM,
    "@VMFindDLSProgram|locale = ((bank & 0x10000) << 8) | programNum;", "locale = ((bank & 0x100FF) << 8) | programNum;",
    'a DLS collection with an instrument in bank 0, selected through a bank with a non-zero LSB that the collection does not have', 'the fallback to bank 0 of a DLS collection is lost',
    r'''
int main(void) { EAS_HANDLE s; S_DLS *d = calloc(1, 4096); S_PROGRAM *p = calloc(2, sizeof *p);
  init(); s = stream();
  d->pDLSPrograms = p; d->numDLSPrograms = 1; p->locale = 5; p->regionIndex = 0x4003; d->refCount = 1;
  vm->pSynth[0]->pDLS = d;
  vm->pSynth[0]->channels[2].bankNum = 0x7903;
  midi2(s, 0xC2, 5); CHECK(vm->pSynth[0]->channels[2].regionIndex == 0x4003);
  midi2(s, 0xC2, 6); CHECK(vm->pSynth[0]->channels[2].regionIndex != 0x4003);
  return 0; }
''')
bug('b13_close_reset', 'V09', VM,
    "@VMMIDIShutdown|VMReset(pEASData->pVoiceMgr, pSynth, EAS_TRUE)", "VMReset(pEASData->pVoiceMgr, pSynth, EAS_FALSE)",
    'a MIDI stream closed while a note of it sounds', 'a closed stream leaves its voices playing on a freed synthesizer',
    r'''
int main(void) { EAS_HANDLE s; int i;
  init(); s = stream(); midi3(s, 0x90, 60, 100); render(10);
  CHECK(EAS_CloseMIDIStream(eas, s) == 0);
  for (i = 0; i < MAX_SYNTH_VOICES; i++) CHECK(vm->voices[i].voiceState == eVoiceStateFree);
  return 0; }
''')
bug('b14_loop_table', 'L01', 'lib_src/wt_44khz.c',
    "{ { 32769, 97, 108 }, -11766, 18426, 523, 529, 70, 159 }", "{ { 32769, 97, 108 }, -11766, 18426, 523, 592, 70, 159 }",
    'the highest notes of one built-in instrument', 'the loop of a built-in region ends outside its waveform',
    r'''
extern const S_EAS easSoundLib;
int main(void) { unsigned i; init();
  for (i = 0; i < easSoundLib.numWTRegions; i++) { const S_WT_REGION *r = &easSoundLib.pWTRegions[i];
    if (r->region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED) CHECK(r->loopEnd * sizeof(EAS_SAMPLE) <= easSoundLib.pSampleLen[r->waveIndex]); }
  return 0; }
''')
bug('b15_sat_edge', 'E05', 'lib_src/eas_math.h',
    "((((int32_t)(x)) > DISTORTION_ONE) ? (DISTORTION_ONE) :", "((((int32_t)(x)) > DISTORTION_ONE + 1) ? (DISTORTION_ONE) :",
    'a mixed sample of exactly 32768', 'a full-scale positive sample wraps around to full-scale negative',
    r'''
void SynthMasterGain(EAS_I32 *, EAS_PCM *, EAS_U16, EAS_U16);
int main(void) { EAS_I32 in[2] = { 32768 << 6, -(32769 << 6) }; EAS_PCM out[2];
  SynthMasterGain(in, out, 1024, 2);
  CHECK(out[0] == 32767 && out[1] == -32768); return 0; }
''')
bug('b16_end_frac', 'E02', 'lib_src/eas_wtsynth.c',
    "@WT_CheckSampleEnd|numSamples = (numSamples << NUM_PHASE_FRAC_BITS) - (EAS_I32) pWTVoice->phaseFrac;", "numSamples = (numSamples << NUM_PHASE_FRAC_BITS);",
    'a one-shot sample that ends in this frame while the phase is between two sample points', 'the last frame of a one-shot sample reads past the end of the waveform',
    r'''
EAS_BOOL WT_CheckSampleEnd(S_WT_VOICE *, S_WT_INT_FRAME *, EAS_BOOL);
int main(void) { S_WT_VOICE v; S_WT_INT_FRAME f; init(); memset(&v, 0, sizeof v); memset(&f, 0, sizeof f);
  v.phaseAccum = 1000; v.loopEnd = 1000 + 10 * sizeof(EAS_SAMPLE); v.phaseFrac = 30000; f.frame.phaseIncrement = 20000;
  CHECK(WT_CheckSampleEnd(&v, &f, EAS_FALSE));
  CHECK(f.numSamples == (10 * 32768 - 30000 + 19999) / 20000); return 0; }
''')
bug('b17_lfo_edge', 'E03', 'lib_src/eas_wtsynth.c',
    "@WT_UpdateLFO|(pLFO->lfoPhase < 0x6000)", "(pLFO->lfoPhase <= 0x6000)",
    'a LFO that passes exactly three quarters of its cycle', 'the vibrato and tremolo wave jumps to the opposite extreme for one frame',
    r'''
void WT_UpdateLFO(S_LFO_CONTROL *, EAS_I16);
int main(void) { S_LFO_CONTROL l; l.lfoPhase = 0x6000; l.lfoValue = 0; WT_UpdateLFO(&l, 16);
  CHECK(l.lfoValue == -32768); CHECK(l.lfoPhase == 0x6010); return 0; }
''')
bug('b18_chorus_max', 'E08', 'lib_src/eas_chorus.c',
    "@ChorusSetParam|value>EAS_CHORUS_LEVEL_MAX", "value>EAS_CHORUS_DEPTH_MAX",
    'setting the chorus level', 'the chorus level is checked against the limit of another parameter',
    r'''
#include "eas_chorus.h"
int main(void) { EAS_I32 v = -1; int r; init();
  CHECK(EAS_SetParameter(eas, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, 20000) == 0);
  CHECK(EAS_GetParameter(eas, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, &v) == 0 && v == 20000);
  r = EAS_SetParameter(eas, EAS_MODULE_CHORUS, EAS_PARAM_CHORUS_LEVEL, 40000); CHECK(r != 0); return 0; }
''')
bug('b19_mip_edge', 'V08', VM,
    "@VMMIPUpdateChannelMuting|(pSynth->channels[i].mip <= maxPolyphony)", "(pSynth->channels[i].mip < maxPolyphony)",
    'a scalable-polyphony channel whose MIP value equals the available polyphony', 'a channel that fits exactly is muted',
    r'''
int main(void) { EAS_HANDLE s; EAS_U8 m[] = { 0xf0, 0x7f, 0x7f, 0x0b, 0x01, 0, 8, 1, 64, 0xf7 };
  init(); s = stream();
  CHECK(EAS_WriteMIDIStream(eas, s, m, sizeof m) == 0);
  CHECK(vm->maxPolyphony == 64);
  CHECK(!(vm->pSynth[0]->channels[1].channelFlags & CHANNEL_FLAG_MUTE));
  CHECK(vm->pSynth[0]->channels[2].channelFlags & CHANNEL_FLAG_MUTE);
  return 0; }
''')
bug('b20_dls_ref', 'D03', 'lib_src/eas_mdls.c',
    "@DLSCleanup|if (--pDLS->refCount == 0)", "if (pDLS->refCount-- == 0)",
    'the last reference to a DLS collection is dropped', 'a DLS collection is never freed',
    r'''
#include "eas_mdls.h"
#include <malloc.h>
int main(void) { S_DLS *d; size_t a, b; int i;
  init(); 
  a = mallinfo2().uordblks;
  for (i = 0; i < 8; i++) { d = EAS_HWMalloc(((S_EAS_DATA *) eas)->hwInstData, 4000); memset(d, 0, 4000); d->refCount = 1; DLSAddRef(d); CHECK(DLSCleanup(((S_EAS_DATA *) eas)->hwInstData, d) == 0); CHECK(d->refCount == 1); CHECK(DLSCleanup(((S_EAS_DATA *) eas)->hwInstData, d) == 0); }
  b = mallinfo2().uordblks; CHECK(b < a + 8000);
  return 0; }
''')
bug('b21_mastervol', 'M02', 'lib_src/eas_midi.c',
    "@ProcessSysExMessage|((EAS_I32) pMIDIStream->d1 << 1)", "((EAS_I32) pMIDIStream->d1)",
    'a master volume message with a non-zero LSB', 'the fine part of the master volume has half its weight',
    r'''
int main(void) { EAS_HANDLE s; EAS_U8 m[] = { 0xf0, 0x7f, 0x7f, 0x04, 0x01, 0x7f, 0x40, 0xf7 }; EAS_I32 g = (0x40 << 8) | (0x7f << 1);
  init(); s = stream();
  CHECK(EAS_WriteMIDIStream(eas, s, m, sizeof m) == 0);
  CHECK(vm->pSynth[0]->masterVolume == (EAS_U16) ((g * g) >> 15));
  return 0; }
''')
