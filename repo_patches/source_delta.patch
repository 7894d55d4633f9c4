From a7a36704a5d89de2e2a205c4562a0e8dfdb55e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 01/33] fix: sustain pedal indexes the channel table with the
 virtual synth number

VMCatchNotesForSustainPedal tags the channel with the virtual synth number
to compare it with the voices and then used the tagged value as the index
into the 16-entry channel table, which is out of bounds for every stream
but the first.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 847ce6c..ceb9bf9 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1220,7 +1220,7 @@ void VMCatchNotesForSustainPedal (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U
         if (channel == pVoiceMgr->voices[voiceNum].channel)
         {
             if (eVoiceStateRelease == pVoiceMgr->voices[voiceNum].voiceState)
-                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+                GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[GET_CHANNEL(channel)], GetAdjustedVoiceNum(voiceNum));
         }
     }
 }
-- 
2.43.0


From 93c42b7384891dc83a8c8ab87284169baafb9abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 02/33] fix: deferred note-offs of one stream are processed
 with another stream's state

VMDeferredStopNote handled the voices of every virtual synth with the
channel flags, sound library and DLS collection of the synth it was called
for. A held pedal of one stream could hang notes of another one.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index ceb9bf9..d5d6615 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1078,7 +1078,8 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
 #endif  // #ifdef _DEBUG_VM
 
             }
-            else
+            /* only process the voices of this virtual synth */
+            else if (GET_VSYNTH(pVoiceMgr->voices[voiceNum].channel) == pSynth->vSynthNum)
             {
                 /* clear the flag using exor */
                 pVoiceMgr->voices[voiceNum].voiceFlags ^=
-- 
2.43.0


From 2cc69cda5c4d1d06b28df79510c855e6bab57eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:28 +0000
Subject: [PATCH 03/33] fix: deferred note-off lost when the sustain pedal
 cannot hold the voice

The synthesizer refuses to hold a voice whose envelope is below its sustain
level, which is the normal case for a note in its attack phase. The note-off
had already been forgotten by then, so the note would never end.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index d5d6615..7b9fbdc 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1098,6 +1098,10 @@ void VMDeferredStopNote (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
                 if (pSynth->channels[channel].channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
                 {
                     GetSynthPtr(voiceNum)->pfSustainPedal(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum], &pSynth->channels[channel], GetAdjustedVoiceNum(voiceNum));
+
+                    /* the envelope was too low to be held by the pedal, release the voice */
+                    if ((pVoiceMgr->voices[voiceNum].voiceFlags & VOICE_FLAG_SUSTAIN_PEDAL_DEFER_NOTE_OFF) == 0)
+                        VMReleaseVoice(pVoiceMgr, pSynth, voiceNum);
                 }
 
                 /* release this voice */
-- 
2.43.0


From d5e8e421feb73ecf0076d76f27c47a9babf4a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 04/33] fix: note dropped when its voice was stolen from an
 SP-MIDI muted channel

VMRetargetStolenVoice is meant to drop the note when its own (new) channel
has been muted since, but looked at the channel the voice was taken from.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 7b9fbdc..5cde0e4 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1377,8 +1377,8 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
     /* establish some pointers */
     pVoice = &pVoiceMgr->voices[voiceNum];
     pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
-    pMIDIChannel = &pSynth->channels[pVoice->channel & 15];
     pNextSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->nextChannel)];
+    pMIDIChannel = &pNextSynth->channels[pVoice->nextChannel & 15];
 
 #ifdef _DEBUG_VM
 { /* dpp: EAS_ReportEx(_EAS_SEVERITY_INFO, "VMRetargetStolenVoice: retargeting stolen voice %d on channel %d\n",
@@ -1389,7 +1389,7 @@ static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum)
 #endif
 
     /* make sure new channel hasn't been muted by SP-MIDI since the voice was stolen */
-    if ((pSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
+    if ((pNextSynth->synthFlags & SYNTH_FLAG_SP_MIDI_ON) &&
         (pMIDIChannel->channelFlags & CHANNEL_FLAG_MUTE))
     {
         VMFreeVoice(pVoiceMgr, pSynth, &pVoiceMgr->voices[voiceNum]);
-- 
2.43.0


From ece8e4957cb9983895cbaba424412fa50234d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 05/33] fix: closing a stream breaks the voices stolen from or
 for another stream

A voice stolen from the closed stream kept referring to the deleted virtual
synth, and the next render dereferenced a null pointer. A voice stolen for
the closed stream was freed without giving it back to the voice counts of
its owner, which permanently reduced the polyphony.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 5cde0e4..6c01bc7 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -192,6 +192,9 @@ void InitVoice (S_SYNTH_VOICE *pVoice)
  * Updates the voice pool count when a voice changes state
  *----------------------------------------------------------------------------
 */
+static void VMFreeVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, S_SYNTH_VOICE *pVoice);
+static EAS_BOOL VMRetargetStolenVoice (S_VOICE_MGR *pVoiceMgr, EAS_I32 voiceNum);
+
 static void IncVoicePoolCount (S_VOICE_MGR *pVoiceMgr, S_SYNTH_VOICE *pVoice)
 {
     S_SYNTH *pSynth;
@@ -447,8 +450,6 @@ void VMReset (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_BOOL force)
     /* force voices to off state - may cause audio artifacts */
     if (force)
     {
-        pVoiceMgr->activeVoices -= pSynth->numActiveVoices;
-        pSynth->numActiveVoices = 0;
         VMInitializeAllVoices(pVoiceMgr, pSynth->vSynthNum);
     }
     else
@@ -585,20 +586,29 @@ void VMResetControllers (S_SYNTH *pSynth)
 */
 void VMInitializeAllVoices (S_VOICE_MGR *pVoiceMgr, EAS_INT vSynthNum)
 {
+    S_SYNTH_VOICE *pVoice;
     EAS_INT i;
 
-    /* initialize the voice manager parameters */
+    /* free the voices of this synth, keeping track of the voice counts */
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        if (pVoiceMgr->voices[i].voiceState != eVoiceStateStolen)
+        pVoice = &pVoiceMgr->voices[i];
+        if (pVoice->voiceState == eVoiceStateFree)
+            continue;
+
+        if (pVoice->voiceState != eVoiceStateStolen)
         {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].channel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
+            if (GET_VSYNTH(pVoice->channel) == vSynthNum)
+                VMFreeVoice(pVoiceMgr, pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)], pVoice);
         }
         else
         {
-            if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) == vSynthNum)
-                InitVoice(&pVoiceMgr->voices[i]);
+            if (GET_VSYNTH(pVoice->nextChannel) == vSynthNum)
+                VMFreeVoice(pVoiceMgr, pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)], pVoice);
+
+            /* voice was stolen from this synth, hand it over to its new owner */
+            else if (GET_VSYNTH(pVoice->channel) == vSynthNum)
+                VMRetargetStolenVoice(pVoiceMgr, i);
         }
     }
 }
-- 
2.43.0


From ae9f27f3f44c1fb3d71b3c3070d4b81bbf584662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 06/33] fix: all-notes-off leaks the voice pool counts

VMAllNotesOff put voices in the muting state without taking them out of
their pool count, so the count was never given back.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 6c01bc7..d79edab 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1015,8 +1015,7 @@ void VMAllNotesOff (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel)
                 ((pVoice->voiceState == eVoiceStateStolen) && (channel == pVoice->nextChannel)))
             {
                 /* this voice is assigned to the requested channel */
-                GetSynthPtr(voiceNum)->pfMuteVoice(pVoiceMgr, pSynth, pVoice, GetAdjustedVoiceNum(voiceNum));
-                pVoice->voiceState = eVoiceStateMuting;
+                VMMuteVoice(pVoiceMgr, voiceNum);
             }
         }
     }
-- 
2.43.0


From 8d567dec31d5bb4e372967cdf142603b73808e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 07/33] fix: SP-MIDI update counts muting voices in the voice
 pools

A muting voice has left its pool already and is not taken out again when it
ends, so the pool count stayed too high for ever.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index d79edab..c6a81e2 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -752,8 +752,8 @@ void VMMIPUpdateChannelMuting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
 
-        /* ignore free voices */
-        if (pVoiceMgr->voices[i].voiceState == eVoiceStateFree)
+        /* ignore free voices, and muting voices which are not counted in a pool */
+        if ((pVoiceMgr->voices[i].voiceState == eVoiceStateFree) || (pVoiceMgr->voices[i].voiceState == eVoiceStateMuting))
             continue;
 
         /* get channel and virtual synth */
-- 
2.43.0


From 955c834d11755b8ed9d22164443683b36f6d8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 08/33] fix: note polyphony limit takes free voices for playing
 ones

The unassigned channel and key of a free voice equal channel 1, key 105 of
the second stream, so a free voice could be "stolen" for that note without
being counted as active.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index c6a81e2..572c5b3 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -1564,6 +1564,10 @@ EAS_BOOL VMCheckPolyphonyLimiting (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_
     /* examine each voice on this channel playing this note */
     for (voiceNum = lowVoice; voiceNum <= highVoice; voiceNum++)
     {
+        /* ignore free voices */
+        if (pVoiceMgr->voices[voiceNum].voiceState == eVoiceStateFree)
+            continue;
+
         /* check stolen notes separately */
         if (pVoiceMgr->voices[voiceNum].voiceState != eVoiceStateStolen)
         {
-- 
2.43.0


From 151340980aa1c4392f106fbd325af2b1f453d7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 09/33] fix: RPN LSB select drops the lowest bit of the RPN MSB

An RPN with an odd MSB was taken for the one below it, e.g. RPN 1/0 for the
pitch bend range 0/0.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 572c5b3..2e91a1c 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2464,7 +2464,7 @@ EAS_RESULT VMUpdateRPNStateMachine (S_SYNTH *pSynth, EAS_U8 channel, EAS_U8 cont
         break;
     case MIDI_CONTROLLER_SELECT_RPN_LSB:
         pChannel->registeredParam =
-            (pChannel->registeredParam & 0x7F00) | value;
+            (pChannel->registeredParam & 0x3F80) | value;
         break;
     case MIDI_CONTROLLER_ENTER_DATA_MSB:
         switch (pChannel->registeredParam)
-- 
2.43.0


From 05f12d132d9f252843e3f65428895baca190befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 10/33] fix: reset all controllers leaves the notes held by the
 pedal hanging

The sustain pedal was turned off without releasing the notes whose note-off
it had deferred.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 2e91a1c..5589270 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2353,6 +2353,8 @@ void VMControlChange (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_U8 channel, E
         pChannel->expression = DEFAULT_EXPRESSION;
 
         /* turn the sustain pedal off as default/reset */
+        if (pChannel->channelFlags & CHANNEL_FLAG_SUSTAIN_PEDAL)
+            VMReleaseAllDeferredNoteOffs(pVoiceMgr, pSynth, channel);
         pChannel->channelFlags &= ~CHANNEL_FLAG_SUSTAIN_PEDAL;
         pChannel->pitchBend = DEFAULT_PITCH_BEND;
 
-- 
2.43.0


From 4facaa1487809af62b8174d500dd99ed45ab8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 11/33] fix: stream polyphony limit looks at the wrong voices

VMSetPolyphony selected the voices to silence by the channel of the pending
note even for voices without one. The limit had no effect on the first
stream, and on the second one all voices not stolen were considered.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 5589270..c75d956 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3380,12 +3380,13 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
     activeVoices = 0;
     for (i = 0; i < MAX_SYNTH_VOICES; i++)
     {
-        /* this synth? */
-        if (GET_VSYNTH(pVoiceMgr->voices[i].nextChannel) != pSynth->vSynthNum)
+        /* is voice active? */
+        if ((pVoiceMgr->voices[i].voiceState == eVoiceStateFree) || (pVoiceMgr->voices[i].voiceState == eVoiceStateMuting))
             continue;
 
-        /* is voice active? */
-        if ((pVoiceMgr->voices[i].voiceState != eVoiceStateFree) && (pVoiceMgr->voices[i].voiceState != eVoiceStateMuting))
+        /* this synth? */
+        if (GET_VSYNTH((pVoiceMgr->voices[i].voiceState == eVoiceStateStolen) ?
+            pVoiceMgr->voices[i].nextChannel : pVoiceMgr->voices[i].channel) == pSynth->vSynthNum)
             activeVoices++;
     }
 
@@ -3395,6 +3396,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         S_SYNTH_VOICE *pVoice;
         EAS_I32 currentPriority, bestPriority;
         EAS_INT bestCandidate;
+        EAS_U8 channel;
 
         /* find the lowest priority voice */
         bestPriority = bestCandidate = -1;
@@ -3402,8 +3404,13 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
         {
             pVoice = &pVoiceMgr->voices[i];
 
+            /* is voice active? */
+            if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
+                continue;
+
             /* this synth? */
-            if (GET_VSYNTH(pVoice->nextChannel) != pSynth->vSynthNum)
+            channel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+            if (GET_VSYNTH(channel) != pSynth->vSynthNum)
                 continue;
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
@@ -3413,7 +3420,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3426,7 +3433,7 @@ EAS_RESULT VMSetPolyphony (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_I32 poly
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* is this the best choice so far? */
-- 
2.43.0


From 3de029fe0134510cef149ae55b1511511eb98125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 12/33] fix: voice stealing compares the plain channel with the
 tagged one

VMStealVoice compared its untagged channel argument with the channel of the
voice, which carries the virtual synthesizer number in its upper bits, so the
bonus for a voice on the same channel and key went to the first stream's voice.
---
 arm-wt-22k/lib_src/eas_voicemgt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index c75d956..4501b8f 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -2102,7 +2102,7 @@ EAS_RESULT VMStealVoice (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth, EAS_INT *pVoic
         }
 
         /* if a note is already playing that matches this note, consider stealing it more readily */
-        if ((note == currNote) && (channel == currChannel))
+        if ((note == currNote) && (VSynthToChannel(pSynth, channel) == currChannel))
             currentPriority += NOTE_MATCH_PENALTY;
 
         /* is this the best choice so far? */
-- 
2.43.0


From 1fb6160b5fe75931c9e1045aca29d87ebe9a7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 13/33] fix: SP-MIDI table gives voice pools to the wrong
 channels

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 4501b8f..04de8c1 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -827,7 +827,8 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         priority[i] = -1;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        if (pSynth->channels[i].pool != DEFAULT_SP_MIDI_PRIORITY)
+        /* channels without a MIP entry have no place in the table */
+        if ((pSynth->channels[i].mip != 0) && (pSynth->channels[i].pool != DEFAULT_SP_MIDI_PRIORITY))
             priority[pSynth->channels[i].pool] = i;
     }
 
@@ -836,9 +837,9 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
     currentPool = -1;
     for (i = 0; i < NUM_SYNTH_CHANNELS; i++)
     {
-        /* stop when we run out of channels */
+        /* no channel with this priority */
         if (priority[i] == -1)
-            break;
+            continue;
 
         pChannel = &pSynth->channels[priority[i]];
 
@@ -852,6 +853,7 @@ void VMUpdateMIPTable (S_VOICE_MGR *pVoiceMgr, S_SYNTH *pSynth)
         else
         {
             currentPool++;
+            pChannel->pool = (EAS_U8) currentPool;
             pSynth->poolAlloc[currentPool] = (EAS_U8) (pChannel->mip - currentMIP);
             currentMIP = pChannel->mip;
         }
-- 
2.43.0


From 42bc9b9135c68565689a32c3a0de93e9d452c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 14/33] fix: synthesizer memory leaked when its sound library
 is refused

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index 04de8c1..eb140bb 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -373,7 +373,8 @@ EAS_RESULT VMInitMIDI (S_EAS_DATA *pEASData, S_SYNTH **ppSynth)
     /* set the sound library pointer */
     if ((result = VMSetEASLib(pSynth, pEASData->pVoiceMgr->pGlobalEAS)) != EAS_SUCCESS)
     {
-        VMMIDIShutdown(pEASData, pSynth);
+        if (!pEASData->staticMemoryModel)
+            EAS_HWFree(pEASData->hwInstData, pSynth);
         return result;
     }
 
-- 
2.43.0


From c4102a50e4a4adfd29ff59510f2f01046c0e3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 15/33] fix: DLS collection of a stream is never freed

---
 arm-wt-22k/lib_src/eas_public.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index a0b183c..9ff0a05 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2473,8 +2473,13 @@ EAS_PUBLIC EAS_RESULT EAS_LoadDLSCollection (EAS_DATA_HANDLE pEASData, EAS_HANDL
 
         /* if a stream pStream is specified, point it to the DLS collection */
         if (pStream)
+        {
             result = EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_DLS_COLLECTION, (EAS_I32) pDLS);
 
+            /* the stream has its own reference */
+            DLSCleanup(pEASData->hwInstData, pDLS);
+        }
+
         /* global DLS load */
         else
             result = VMSetGlobalDLSLib(pEASData, pDLS);
-- 
2.43.0


From 3d8af50a94981ed269b3a59928c49524793394e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 16/33] fix: replaced DLS collection of a stream is never freed

---
 arm-wt-22k/lib_src/eas_public.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 9ff0a05..b6c037c 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -183,10 +183,18 @@ EAS_RESULT EAS_IntSetStrmParam (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS_IN
 #ifdef DLS_SYNTHESIZER
         case PARSER_DATA_DLS_COLLECTION:
             {
+                EAS_DLSLIB_HANDLE pOldDLS = pSynth->pDLS;
                 EAS_RESULT result = VMSetDLSLib(pSynth, (EAS_DLSLIB_HANDLE) value);
                 if (result == EAS_SUCCESS)
                 {
                     DLSAddRef((S_DLS*) value);
+
+                    /* let go of the previous collection, its samples may still be playing */
+                    if (pOldDLS != NULL)
+                    {
+                        VMInitializeAllVoices(pEASData->pVoiceMgr, pSynth->vSynthNum);
+                        DLSCleanup(pEASData->hwInstData, pOldDLS);
+                    }
                     VMInitializeAllChannels(pEASData->pVoiceMgr, pSynth);
                 }
                 return result;
-- 
2.43.0


From 37f4bff35df4e0f552b500f731dc7e528bee7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 17/33] fix: MIDI stream on a stream without synthesizer uses a
 wild pointer

---
 arm-wt-22k/lib_src/eas_public.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index b6c037c..f4456c4 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1574,8 +1574,13 @@ EAS_PUBLIC EAS_RESULT EAS_OpenMIDIStream (EAS_DATA_HANDLE pEASData, EAS_HANDLE *
     {
         EAS_I32 value;
         result = EAS_GetStreamParameter(pEASData, streamHandle, PARSER_DATA_SYNTH_HANDLE, &value);
-        pMIDIStream->pSynth = (S_SYNTH*) value;
-        VMIncRefCount(pMIDIStream->pSynth);
+        if ((result == EAS_SUCCESS) && (value == 0))
+            result = EAS_ERROR_INVALID_HANDLE;
+        if (result == EAS_SUCCESS)
+        {
+            pMIDIStream->pSynth = (S_SYNTH*) value;
+            VMIncRefCount(pMIDIStream->pSynth);
+        }
     }
     if (result != EAS_SUCCESS)
     {
-- 
2.43.0


From 6d31ae1b672b7927604b071b20886c2e8e470062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:38 +0000
Subject: [PATCH 18/33] fix: engine polyphony limit looks up the wrong channel
 of fresh and stolen voices

---
 arm-wt-22k/lib_src/eas_voicemgt.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_voicemgt.c b/arm-wt-22k/lib_src/eas_voicemgt.c
index eb140bb..0a654c5 100644
--- a/arm-wt-22k/lib_src/eas_voicemgt.c
+++ b/arm-wt-22k/lib_src/eas_voicemgt.c
@@ -3228,6 +3228,7 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
         S_SYNTH_VOICE *pVoice;
         EAS_I32 currentPriority, bestPriority;
         EAS_INT bestCandidate;
+        EAS_U8 channel;
 
         /* find the lowest priority voice */
         bestPriority = bestCandidate = -1;
@@ -3240,7 +3241,8 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
             if ((pVoice->voiceState == eVoiceStateFree) || (pVoice->voiceState == eVoiceStateMuting))
                 continue;
 
-            pSynth = pVoiceMgr->pSynth[GET_VSYNTH(pVoice->channel)];
+            channel = (pVoice->voiceState == eVoiceStateStolen) ? pVoice->nextChannel : pVoice->channel;
+            pSynth = pVoiceMgr->pSynth[GET_VSYNTH(channel)];
 
             /* if voice is stolen or just started, reduce the likelihood it will be stolen */
             if (( pVoice->voiceState == eVoiceStateStolen) || (pVoice->voiceFlags & VOICE_FLAG_NO_SAMPLES_SYNTHESIZED_YET))
@@ -3249,7 +3251,7 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
                 currentPriority = 128 - pVoice->nextVelocity;
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->nextChannel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
             else
             {
@@ -3262,7 +3264,7 @@ EAS_RESULT VMSetSynthPolyphony (S_VOICE_MGR *pVoiceMgr, EAS_I32 synth, EAS_I32 p
                     ((EAS_I32) pVoice->gain >> (12 - NOTE_GAIN_STEAL_WEIGHT));
 
                 /* include channel priority */
-                currentPriority += pSynth->channels[GET_CHANNEL(pVoice->channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
+                currentPriority += pSynth->channels[GET_CHANNEL(channel)].pool << CHANNEL_PRIORITY_STEAL_WEIGHT;
             }
 
             /* include synth priority */
-- 
2.43.0


From 4532d6e9610bf356153cc392b4ade8afcd4ad783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 19/33] fix: a failing read callback moved the file position
 backwards

---
 arm-wt-22k/host_src/eas_hostmm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arm-wt-22k/host_src/eas_hostmm.c b/arm-wt-22k/host_src/eas_hostmm.c
index 606f9fb..5af3191 100644
--- a/arm-wt-22k/host_src/eas_hostmm.c
+++ b/arm-wt-22k/host_src/eas_hostmm.c
@@ -297,6 +297,9 @@ EAS_RESULT EAS_HWReadFile (EAS_HW_DATA_HANDLE hwInstData, EAS_FILE_HANDLE file,
     /* copy the data to the requested location, and advance the pointer */
     if (count) {
         count = file->readAt(file->handle, pBuffer, file->filePos, count);
+        /* nothing was delivered: do not move backwards */
+        if (count < 0)
+            count = 0;
     }
     file->filePos += count;
     *pBytesRead = count;
-- 
2.43.0


From ed2ac8e337aff7cd47ca40c579b590205bd29738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 20/33] fix: truncated scalable-polyphony message applied by a
 later end-of-exclusive byte

---
 arm-wt-22k/lib_src/eas_midi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_midi.c b/arm-wt-22k/lib_src/eas_midi.c
index 8cb043a..c737848 100644
--- a/arm-wt-22k/lib_src/eas_midi.c
+++ b/arm-wt-22k/lib_src/eas_midi.c
@@ -93,6 +93,7 @@ void EAS_InitMIDIStream (S_MIDI_STREAM *pMIDIStream)
     pMIDIStream->pending = EAS_FALSE;
     pMIDIStream->runningStatus = 0;
     pMIDIStream->status = 0;
+    pMIDIStream->sysExState = eSysExIgnore;
 }
 
 /*----------------------------------------------------------------------------
@@ -132,6 +133,9 @@ EAS_RESULT EAS_ParseMIDIStream (S_EAS_DATA *pEASData, S_SYNTH *pSynth, S_MIDI_ST
                 return ProcessSysExMessage(pEASData, pSynth, pMIDIStream, c, parserMode);
             }
 
+            /* any other status byte ends a SysEx message without completing it */
+            pMIDIStream->sysExState = eSysExIgnore;
+
             /* inform the file parser that we're in the middle of a message */
             if ((c < 0xf4) || (c > 0xf6))
                 pMIDIStream->pending = EAS_TRUE;
-- 
2.43.0


From b91e6ad3e55952eff8a998c1650b01e16c188023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 21/33] fix: song instance data cleared through a null pointer
 when its allocation fails

---
 arm-wt-22k/lib_src/eas_smf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 4f8db9d..a2cc8a3 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -141,7 +141,8 @@ EAS_RESULT SMF_CheckFileType (S_EAS_DATA *pEASData, EAS_FILE_HANDLE fileHandle,
     else
     {
         pSMFData = EAS_HWMalloc(pEASData->hwInstData, sizeof(S_SMF_DATA));
-        EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
+        if (pSMFData)
+            EAS_HWMemSet((void *)pSMFData,0, sizeof(S_SMF_DATA));
     }
     if (!pSMFData)
         return EAS_ERROR_MALLOC_FAILED;
-- 
2.43.0


From 5e184c251839479981170fdf8a284c43d6e5583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 22/33] fix: song can be prepared again after its header was
 refused, leaking the synthesizer

---
 arm-wt-22k/lib_src/eas_smf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index a2cc8a3..7dde718 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -195,7 +195,11 @@ EAS_RESULT SMF_Prepare (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
     /* parse the file header and setup the individual stream parsers */
     if ((result = SMF_ParseHeader(pEASData->hwInstData, pSMFData)) != EAS_SUCCESS)
+    {
+        /* handles and synthesizer are only good for SMF_Close now */
+        pSMFData->state = EAS_STATE_ERROR;
         return result;
+    }
 
     /* ready to play */
     pSMFData->state = EAS_STATE_READY;
-- 
2.43.0


From 639e2edb5396b4f7687be079cd8c5ab3e8210dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:18 +0000
Subject: [PATCH 23/33] fix: song ends at tick 0x7ffffff although tracks have
 more events

---
 arm-wt-22k/lib_src/eas_smf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 7dde718..3fc32f9 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -340,7 +340,7 @@ EAS_RESULT SMF_Event (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData, EAS_INT pars
     }
 
     /* find next event in all streams */
-    temp = 0x7ffffff;
+    temp = SMF_END_OF_TRACK;
     pSMFData->nextStream = NULL;
     for (i = 0; i < pSMFData->numStreams; i++)
     {
-- 
2.43.0


From 5053d4d43c9ba922e4989ec5d4344b0510a38a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 24/33] fix: default tick length wraps around for fewer than 8
 ticks per quarter note

---
 arm-wt-22k/lib_src/eas_smf.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 3fc32f9..923233e 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -61,6 +61,7 @@ static EAS_RESULT SMF_ParseSysEx (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_
 static EAS_RESULT SMF_ParseEvent (S_EAS_DATA *pEASData, S_SMF_DATA *pSMFData, S_SMF_STREAM *pSMFStream, EAS_INT parserMode);
 static EAS_RESULT SMF_GetDeltaTime (EAS_HW_DATA_HANDLE hwInstData, S_SMF_STREAM *pSMFStream);
 static void SMF_UpdateTime (S_SMF_DATA *pSMFData, EAS_U32 ticks);
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData);
 
 
 /*----------------------------------------------------------------------------
@@ -1135,7 +1136,7 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         { /* dpp: EAS_ReportEx(_EAS_SEVERITY_WARNING,"No support for SMPTE code timebase\n"); */ }
     else
         pSMFData->ppqn = (division & 0x7fff);
-    pSMFData->tickConv = (EAS_U16) (((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000);
+    SMF_SetDefaultTempo(pSMFData);
 
     /* dynamic memory allocation, allocate memory for streams */
     if (pSMFData->streams == NULL)
@@ -1231,6 +1232,30 @@ EAS_RESULT SMF_ParseHeader (EAS_HW_DATA_HANDLE hwInstData, S_SMF_DATA *pSMFData)
         return result;
 }
 
+/*----------------------------------------------------------------------------
+ * SMF_SetDefaultTempo()
+ *----------------------------------------------------------------------------
+ * Purpose:
+ * Sets the tick length for the default tempo of 120 bpm
+ *
+ * Inputs:
+ * pSMFData         - pointer to parser instance data, ppqn must be set
+ *
+ * Outputs:
+ *
+ * Side Effects:
+ *
+ *----------------------------------------------------------------------------
+*/
+static void SMF_SetDefaultTempo (S_SMF_DATA *pSMFData)
+{
+    EAS_I32 temp;
+
+    /* a very low resolution doesn't fit in 16 bits */
+    temp = ((SMF_DEFAULT_TIMEBASE * 1024) / pSMFData->ppqn + 500) / 1000;
+    pSMFData->tickConv = (EAS_U16) ((temp > 65535) ? 65535 : temp);
+}
+
 /*----------------------------------------------------------------------------
  * SMF_UpdateTime()
  *----------------------------------------------------------------------------
-- 
2.43.0


From acc03c2bdd89722e4fd05012a655d597c6e1d273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 25/33] fix: rewound song keeps the last tempo and loses the
 time before its first event

---
 arm-wt-22k/lib_src/eas_smf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_smf.c b/arm-wt-22k/lib_src/eas_smf.c
index 923233e..71e1d17 100644
--- a/arm-wt-22k/lib_src/eas_smf.c
+++ b/arm-wt-22k/lib_src/eas_smf.c
@@ -515,6 +515,7 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
 
         /* initalize the MIDI parser data */
         EAS_InitMIDIStream(&pSMFData->streams[i].midiStream);
+        pSMFData->streams[i].midiStream.flags = 0;
 
         /* parse the first delta time in each stream */
         if ((result = SMF_GetDeltaTime(pEASData->hwInstData,&pSMFData->streams[i])) != EAS_SUCCESS)
@@ -526,6 +527,11 @@ EAS_RESULT SMF_Reset (S_EAS_DATA *pEASData, EAS_VOID_PTR pInstData)
         }
     }
 
+    /* back to the default tempo, setup bar and time of the first event */
+    pSMFData->flags &= ~(SMF_FLAGS_SETUP_BAR | SMF_FLAGS_CHASE_MODE);
+    SMF_SetDefaultTempo(pSMFData);
+    if (pSMFData->nextStream)
+        SMF_UpdateTime(pSMFData, pSMFData->nextStream->ticks);
 
     pSMFData->state = EAS_STATE_READY;
     return EAS_SUCCESS;
-- 
2.43.0


From b7ccf99dbe3a2021850e762d1f77e92e00e9e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 26/33] fix: bypassed reverb and chorus copied the output over
 the input

EAS_HWMemCpy takes the destination first; with separate buffers a bypassed
effect overwrote its input and left the output unwritten.
---
 arm-wt-22k/lib_src/eas_chorus.c | 2 +-
 arm-wt-22k/lib_src/eas_reverb.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_chorus.c b/arm-wt-22k/lib_src/eas_chorus.c
index 4a2c8d0..5ac13d8 100644
--- a/arm-wt-22k/lib_src/eas_chorus.c
+++ b/arm-wt-22k/lib_src/eas_chorus.c
@@ -273,7 +273,7 @@ static void ChorusProcess (EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
     if (pChorusData->bypass == EAS_TRUE || pChorusData->m_nLevel == 0)
     {
         if (pSrc != pDst)
-            EAS_HWMemCpy(pSrc, pDst, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
+            EAS_HWMemCpy(pDst, pSrc, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
         return;
     }
 
diff --git a/arm-wt-22k/lib_src/eas_reverb.c b/arm-wt-22k/lib_src/eas_reverb.c
index cd5befe..700ed2f 100644
--- a/arm-wt-22k/lib_src/eas_reverb.c
+++ b/arm-wt-22k/lib_src/eas_reverb.c
@@ -283,7 +283,7 @@ static void ReverbProcess(EAS_VOID_PTR pInstData, EAS_PCM *pSrc, EAS_PCM *pDst,
         (pReverbData->m_nWet == 0 && pReverbData->m_nDry == 32767))
     {
         if (pSrc != pDst)
-            EAS_HWMemCpy(pSrc, pDst, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
+            EAS_HWMemCpy(pDst, pSrc, numSamples * NUM_OUTPUT_CHANNELS * (EAS_I32) sizeof(EAS_PCM));
         return;
     }
 
-- 
2.43.0


From fd01cc7b8fe3b5aa4e2077516db50538bdea9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 27/33] fix: a negative sustain level of a DLS file became a
 negative envelope level

---
 arm-wt-22k/lib_src/eas_mdls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index 1595b60..fcb8c11 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -2588,8 +2588,8 @@ static EAS_I16 ConvertSampleRate (EAS_U32 sampleRate)
 */
 static EAS_I16 ConvertSustain (EAS_I32 sustain)
 {
-    /* check for sustain level of zero */
-    if (sustain == 0)
+    /* check for sustain level of zero (a negative level is silent, too) */
+    if (sustain <= 0)
         return 0;
 
     /* convert to log2 factor */
-- 
2.43.0


From 1bc3f1c14b645056aa867ff9ab47877390741aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 28/33] fix: the DLS connection from CC93 to the chorus send
 was listed as one to the reverb send

---
 arm-wt-22k/lib_src/eas_mdls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arm-wt-22k/lib_src/eas_mdls.c b/arm-wt-22k/lib_src/eas_mdls.c
index fcb8c11..b3a0ba0 100644
--- a/arm-wt-22k/lib_src/eas_mdls.c
+++ b/arm-wt-22k/lib_src/eas_mdls.c
@@ -319,7 +319,7 @@ static const S_CONNECTION connTable[] =
     { CONN_SRC_NONE, CONN_SRC_NONE, CONN_DST_REVERB, PARAM_DEFAULT_REVERB_SEND },
     { CONN_SRC_CC91, CONN_SRC_NONE, CONN_DST_REVERB, PARAM_MIDI_CC91_TO_REVERB_SEND },
     { CONN_SRC_NONE, CONN_SRC_NONE, CONN_DST_CHORUS, PARAM_DEFAULT_CHORUS_SEND },
-    { CONN_SRC_CC93, CONN_SRC_NONE, CONN_DST_REVERB, PARAM_MIDI_CC93_TO_CHORUS_SEND }
+    { CONN_SRC_CC93, CONN_SRC_NONE, CONN_DST_CHORUS, PARAM_MIDI_CC93_TO_CHORUS_SEND }
 };
 #define ENTRIES_IN_CONN_TABLE (sizeof(connTable)/sizeof(S_CONNECTION))
 
-- 
2.43.0


From 4bcfaea0b09175253def0430117ce3d3c715b2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 29/33] fix: a negative module number in EAS_GetParameter and
 EAS_SetParameter read outside the module table

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index f4456c4..2ec3e21 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -2277,7 +2277,7 @@ EAS_PUBLIC EAS_RESULT EAS_Resume (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream)
 EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 *pValue)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
@@ -2312,7 +2312,7 @@ EAS_PUBLIC EAS_RESULT EAS_GetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module
 EAS_PUBLIC EAS_RESULT EAS_SetParameter (EAS_DATA_HANDLE pEASData, EAS_I32 module, EAS_I32 param, EAS_I32 value)
 {
 
-    if (module >= NUM_EFFECTS_MODULES)
+    if ((module < 0) || (module >= NUM_EFFECTS_MODULES))
         return EAS_ERROR_INVALID_MODULE;
 
     if (pEASData->effectsModules[module].effectData == NULL)
-- 
2.43.0


From 558ac6633fb32a313bdcccc738f15675d73a0848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 30/33] fix: file operations on a MIDI stream or a closed
 stream used its missing parser

---
 arm-wt-22k/lib_src/eas_public.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 2ec3e21..1eca39b 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -103,7 +103,7 @@ EAS_RESULT EAS_SetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfSetData)
+    if (pParserModule && pParserModule->pfSetData)
         return (*pParserModule->pfSetData)(pEASData, pStream->handle, param, value);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -125,7 +125,7 @@ EAS_RESULT EAS_GetStreamParameter (S_EAS_DATA *pEASData, EAS_HANDLE pStream, EAS
     S_FILE_PARSER_INTERFACE *pParserModule;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
-    if (pParserModule->pfGetData)
+    if (pParserModule && pParserModule->pfGetData)
         return (*pParserModule->pfGetData)(pEASData, pStream->handle, param, pValue);
     return EAS_ERROR_FEATURE_NOT_AVAILABLE;
 }
@@ -146,6 +146,8 @@ EAS_BOOL EAS_StreamReady (S_EAS_DATA *pEASData, EAS_HANDLE pStream)
     EAS_STATE state;
 
     pParserModule = (S_FILE_PARSER_INTERFACE*) pStream->pParserModule;
+    if (pParserModule == NULL)
+        return EAS_FALSE;
     if (pParserModule->pfState(pEASData, pStream->handle, &state) != EAS_SUCCESS)
         return EAS_FALSE;
     return (state < EAS_STATE_OPEN);
-- 
2.43.0


From 8fb9efcea6e7ff49876bc9da26e203830e1615d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 31/33] fix: EAS_Shutdown did not release open MIDI streams

---
 arm-wt-22k/lib_src/eas_public.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index 1eca39b..bf7984b 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -500,6 +500,10 @@ EAS_PUBLIC EAS_RESULT EAS_Shutdown (EAS_DATA_HANDLE pEASData)
                 reportResult = result;
             }
         }
+
+        /* MIDI streams have no parser */
+        else if (pEASData->streams[i].handle)
+            EAS_CloseMIDIStream(pEASData, &pEASData->streams[i]);
     }
 
     /* shutdown PCM engine */
-- 
2.43.0


From 1b082c264fb9caee2d543d218f3d6844fd2fc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:09 +0000
Subject: [PATCH 32/33] fix: EAS_SetPriority accepted priorities outside 1..15
 and stored them truncated

---
 arm-wt-22k/lib_src/eas_public.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arm-wt-22k/lib_src/eas_public.c b/arm-wt-22k/lib_src/eas_public.c
index bf7984b..36ebc0c 100644
--- a/arm-wt-22k/lib_src/eas_public.c
+++ b/arm-wt-22k/lib_src/eas_public.c
@@ -1848,6 +1848,11 @@ EAS_PUBLIC EAS_RESULT EAS_GetSynthPolyphony (EAS_DATA_HANDLE pEASData, EAS_I32 s
 */
 EAS_PUBLIC EAS_RESULT EAS_SetPriority (EAS_DATA_HANDLE pEASData, EAS_HANDLE pStream, EAS_I32 priority)
 {
+
+    /* check range */
+    if ((priority < 1) || (priority > 15))
+        return EAS_ERROR_PARAMETER_RANGE;
+
     if (!EAS_StreamReady(pEASData, pStream))
         return EAS_ERROR_NOT_VALID_IN_THIS_STATE;
     return EAS_IntSetStrmParam(pEASData, pStream, PARSER_DATA_PRIORITY, priority);
-- 
2.43.0


From 094c75898d51b4e596c583cf1829de2834dd4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:49 +0000
Subject: [PATCH 33/33] fix: a looped waveform was read one sample before its
 loop start (before the waveform for loops starting at 0)

---
 arm-wt-22k/lib_src/eas_wtengine.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/arm-wt-22k/lib_src/eas_wtengine.c b/arm-wt-22k/lib_src/eas_wtengine.c
index dc8d864..d32ae74 100644
--- a/arm-wt-22k/lib_src/eas_wtengine.c
+++ b/arm-wt-22k/lib_src/eas_wtengine.c
@@ -189,7 +189,9 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     EAS_I32 phaseFrac;
     EAS_I32 acc0;
     const EAS_SAMPLE *pSamples;
+    const EAS_SAMPLE *loopStart;
     const EAS_SAMPLE *loopEnd;
+    const EAS_SAMPLE *pNext;
     EAS_I32 samp1;
     EAS_I32 samp2;
     EAS_I32 numSamples;
@@ -207,21 +209,23 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
     }
     pOutputBuffer = pWTIntFrame->pAudioBuffer;
 
+    loopStart = (const EAS_SAMPLE*) pWTVoice->loopStart;
     loopEnd = (const EAS_SAMPLE*) pWTVoice->loopEnd + 1;
     pSamples = (const EAS_SAMPLE*) pWTVoice->phaseAccum;
     /*lint -e{713} truncation is OK */
     phaseFrac = pWTVoice->phaseFrac & PHASE_FRAC_MASK;
     phaseInc = pWTIntFrame->frame.phaseIncrement;
 
-    /* fetch adjacent samples */
+    /* fetch adjacent samples, the last sample of the loop is followed by its first one */
+    pNext = (&pSamples[1] < loopEnd) ? &pSamples[1] : loopStart;
 #if defined(_8_BIT_SAMPLES)
     /*lint -e{701} <avoid multiply for performance>*/
     samp1 = pSamples[0] << 8;
     /*lint -e{701} <avoid multiply for performance>*/
-    samp2 = pSamples[1] << 8;
+    samp2 = pNext[0] << 8;
 #else
     samp1 = pSamples[0];
-    samp2 = pSamples[1];
+    samp2 = pNext[0];
 #endif
 
     while (numSamples--) {
@@ -249,21 +253,21 @@ void WT_Interpolate (S_WT_VOICE *pWTVoice, S_WT_INT_FRAME *pWTIntFrame)
             pSamples +=  nextSamplePhaseInc;
             phaseFrac = phaseFrac & PHASE_FRAC_MASK;
 
-            /* decrementing pSamples by entire buffer length until second pSample is within */
-            /* loopEnd                                                                      */
-            while (&pSamples[1] >= loopEnd) {
-                pSamples -= (loopEnd - (const EAS_SAMPLE*)pWTVoice->loopStart);
+            /* decrementing pSamples by entire loop length until it is within the loop */
+            while (pSamples >= loopEnd) {
+                pSamples -= (loopEnd - loopStart);
             }
+            pNext = (&pSamples[1] < loopEnd) ? &pSamples[1] : loopStart;
 
             /* fetch new samples */
 #if defined(_8_BIT_SAMPLES)
             /*lint -e{701} <avoid multiply for performance>*/
             samp1 = pSamples[0] << 8;
             /*lint -e{701} <avoid multiply for performance>*/
-            samp2 = pSamples[1] << 8;
+            samp2 = pNext[0] << 8;
 #else
             samp1 = pSamples[0];
-            samp2 = pSamples[1];
+            samp2 = pNext[0];
 #endif
         }
     }
-- 
2.43.0

