/* helper for the demonstrations: drives the built library through its MIDI-stream and file APIs */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "eas.h"
#include "eas_data.h"
#include "eas_synth.h"
#include "eas_synth_protos.h"
#include "eas_vm_protos.h"
#include "eas_miditypes.h"
#include "eas_host.h"
static EAS_DATA_HANDLE eas;
static S_VOICE_MGR *vm;
static EAS_PCM buf[4096];
static double energy; static long nsamples;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
static void init(void) { CHECK(EAS_Init(&eas) == 0); vm = ((S_EAS_DATA *) eas)->pVoiceMgr; CHECK(vm); }
static EAS_HANDLE stream(void) { EAS_HANDLE s = 0; CHECK(EAS_OpenMIDIStream(eas, &s, NULL) == 0); return s; }
static void midi3(EAS_HANDLE s, int a, int b, int c) { EAS_U8 m[3]; m[0] = a; m[1] = b; m[2] = c; CHECK(EAS_WriteMIDIStream(eas, s, m, 3) == 0); }
static void midi2(EAS_HANDLE s, int a, int b) { EAS_U8 m[2]; m[0] = a; m[1] = b; CHECK(EAS_WriteMIDIStream(eas, s, m, 2) == 0); }
static void render(int n) { EAS_I32 got; int i; while (n-- > 0) { CHECK(EAS_Render(eas, buf, ((S_EAS_DATA *) eas) ? EAS_Config()->mixBufferSize : 128, &got) == 0); for (i = 0; i < got * 2; i++) energy += fabs((double) buf[i]); nsamples += got; } }
static double loud(int n) { energy = 0; render(n); return energy; }
static int count(int synth, int chan, int note, int state) { /* -1 = any; state -1 = sounding (not free, not muting) */
  int i, n = 0;
  for (i = 0; i < MAX_SYNTH_VOICES; i++) {
    S_SYNTH_VOICE *v = &vm->voices[i];
    if (v->voiceState == eVoiceStateFree) continue;
    if (state >= 0 ? v->voiceState != state : (v->voiceState == eVoiceStateMuting)) continue;
    if (synth >= 0 && (v->channel >> 4) != synth) continue;
    if (chan >= 0 && (v->channel & 15) != chan) continue;
    if (note >= 0 && v->note != note) continue;
    n++;
  }
  return n;
}
/* a Standard MIDI File in memory */
typedef struct { unsigned char d[65536]; int n, trk; } SMF;
static void w8(SMF *s, int v) { s->d[s->n++] = v; }
static void w16(SMF *s, int v) { w8(s, v >> 8); w8(s, v & 255); }
static void w32(SMF *s, long v) { w16(s, (v >> 16) & 65535); w16(s, v & 65535); }
static void hdr(SMF *s, int fmt, int ntrk, int div) { s->n = 0; memcpy(s->d, "MThd", 4); s->n = 4; w32(s, 6); w16(s, fmt); w16(s, ntrk); w16(s, div); }
static void trk(SMF *s) { memcpy(s->d + s->n, "MTrk", 4); s->n += 4; s->trk = s->n; w32(s, 0); }
static void vlq(SMF *s, unsigned long v) { if (v >> 21) w8(s, 0x80 | (v >> 21)); if (v >> 14) w8(s, 0x80 | ((v >> 14) & 127)); if (v >> 7) w8(s, 0x80 | ((v >> 7) & 127)); w8(s, v & 127); }
static void ev3(SMF *s, unsigned long dt, int a, int b, int c) { vlq(s, dt); w8(s, a); w8(s, b); w8(s, c); }
static void ev2(SMF *s, unsigned long dt, int a, int b) { vlq(s, dt); w8(s, a); w8(s, b); }
static void tempo(SMF *s, unsigned long dt, long us) { vlq(s, dt); w8(s, 0xff); w8(s, 0x51); w8(s, 3); w8(s, us >> 16); w16(s, us & 65535); }
static void endt(SMF *s, unsigned long dt) { int n; vlq(s, dt); w8(s, 0xff); w8(s, 0x2f); w8(s, 0); n = s->n - s->trk - 4; s->d[s->trk] = n >> 24; s->d[s->trk + 1] = n >> 16; s->d[s->trk + 2] = n >> 8; s->d[s->trk + 3] = n; }
static int s_read(void *h, void *b, int off, int size) { SMF *s = h; if (off >= s->n) return 0; if (off + size > s->n) size = s->n - off; memcpy(b, s->d + off, size); return size; }
static int s_size(void *h) { return ((SMF *) h)->n; }
static EAS_FILE *file(SMF *s) { EAS_FILE *f = calloc(1, sizeof *f); f->handle = s; f->readAt = s_read; f->size = s_size; return f; }
static EAS_HANDLE openf(SMF *s) { EAS_HANDLE h = 0; CHECK(EAS_OpenFile(eas, file(s), &h) == 0); CHECK(EAS_Prepare(eas, h) == 0); return h; }
