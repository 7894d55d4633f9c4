HOOKS = {'guard': 'SONIVOX_VERIFY', 'enable': 'no hook is compiled in: the contracts are attached in /verif to the unmodified sources', 'source_commits': []}
LEVEL_NOTES = {}
NOT_CLAIMED = {'D02': 'the loader is a recursive-descent parser over nested chunks whose list bounds, table sizes and reference counts are agreed between two passes over the file through the host; a contract that relates the two passes needs quantified invariants over heap tables of symbolic size, which the SAT back end does not take. Its conversions (D01) and the life of what it builds (D03) are claimed.'}
INP, HIS, CFG, FLT = 'inputs', 'histories', 'configurations', 'fault_sequences'

prop('E01', 'Pitch, gain, volume and pan conversions follow their mathematical law',
     'The cents-to-ratio conversion is within 0.05 % (plus one LSB) of 2^(cents/1200) over -18000..19200 cents, 0 below and clamped above that range, and never decreases; the logarithmic-gain conversion is within 6.5 % of 2^(x/1024), saturates, and never decreases. The 0..100 volume conversion follows 1 dB steps within 0.3 % (plus two LSB) with 0 mute and 100 full scale. The pan conversion clamps its angle to -63..63, is monotone, mirror symmetric to one LSB, equal at centre and constant-power within 2.5 %.',
     [INP], 'every 64-bit cents, gain, volume and pan argument',
     'The tests only decode five files; no test samples these conversions, and their accuracy and monotonicity are statements over the full argument ranges.',
     [L + 'eas_math.c', L + 'eas_pan.c', L + 'eas_math.h'],
     [('EAS_Calculate2toX, EAS_LogToLinear16, EAS_VolumeToGain', L + 'eas_math.c'), ('EAS_CalcPanControl', L + 'eas_pan.c')])

prop('E02', 'Voice rendering reads only the waveform being played',
     'While a note is rendered, every sample fetched lies inside the waveform assigned to the note: once the loop has been reached, a looped waveform is read only from its loop start to its loop end, the last sample being followed by the first, and a one-shot waveform is never read past its last sample. Exactly the samples of the period are written, each is interpolated between the two neighbours of its read position, and the fractional read position always stays in its unit interval, for every pitch.',
     [INP], 'every waveform size, loop, read position, pitch increment and sample content',
     'The five test files exercise a handful of built-in instruments; out-of-range reads depend on the pitch/loop/length combination.',
     [L + 'eas_wtengine.c', L + 'eas_wtsynth.c'],
     [('WT_Interpolate, WT_InterpolateNoLoop, WT_VoiceGain, WT_VoiceFilter, WT_ProcessVoice', L + 'eas_wtengine.c'), ('WT_CheckSampleEnd, WT_UpdateVoice', L + 'eas_wtsynth.c')])

prop('E03', 'Envelopes and LFO progress through their stages within range',
     'The volume envelope rises during attack, saturates at full scale, decays multiplicatively to the sustain level, holds it, and falls after release; its level and the modulation envelope level always stay in 0..full scale and stages never go backwards. A voice is retired exactly when its volume envelope has ended or its one-shot waveform ended. The LFO output stays within -full scale..full scale and is held at zero during its delay. The pitch, gain and filter cutoff of each period are exactly those the note, the current envelope and LFO levels, the velocity and the controllers of the channel give.',
     [INP, HIS], 'every envelope rate, level, state and LFO phase',
     'Decoding a few files samples only a few articulations; stage progress and range are inductive over render periods.',
     [L + 'eas_wtsynth.c', L + 'eas_dlssynth.c'],
     [('WT_UpdateEG1, WT_UpdateEG2, WT_UpdateLFO, WT_UpdatePhaseInc, WT_UpdateGain, WT_UpdateFilter, WT_UpdateVoice', L + 'eas_wtsynth.c'), ('DLS_UpdateEnvelope, DLS_UpdatePhaseInc, DLS_UpdateFilter', L + 'eas_dlssynth.c')])

prop('E05', 'The final mix is the gain-scaled accumulator, saturated to 16 bits',
     'Each output sample equals the accumulated mix sample scaled by the master gain and then clamped to the 16-bit range, so it never wraps around; the same input and gain always give the same sample, and samples do not influence each other.',
     [INP], 'every accumulator value that voices and streams can produce, every gain and number of samples up to one render block',
     'Existing tests never overload the mixer; wrap-around shows only for particular accumulator values.',
     [L + 'eas_mixer.c'], [('SynthMasterGain, EAS_MixEnginePost', L + 'eas_mixer.c')])

prop('E07', 'Reverb parameters are range-checked and delay lines never overrun',
     'Setting a reverb parameter either stores a legal value - which reads back unchanged, a preset from the next processed block on - or reports an error and changes nothing, and unknown parameters are refused. Processing never reads or writes outside the delay line for any audio; each tap stays in its own section of it, moves only while it is silent, and only the four section heads are written. A bypassed reverb leaves the audio untouched (copying it when input and output differ), and so does one with no wet level.',
     [INP, HIS], 'every parameter id and value, every legal internal state, every block',
     'The decode tests use one preset; out-of-range indices depend on the modulation and delay offsets over time.',
     [L + 'eas_reverb.c', L + 'eas_reverb.h'], [('ReverbSetParam, ReverbGetParam, ReverbProcess, Reverb, ReverbUpdateXfade, ReverbUpdateRoom, ReverbInit', L + 'eas_reverb.c')])

prop('E08', 'Chorus parameters are range-checked and its delay line never overruns',
     'Setting a chorus parameter either stores a legal value - which reads back unchanged, a preset from the next processed block on - or reports an error and changes nothing, and unknown parameters are refused. Processing never reads or writes outside the delay lines or the LFO table for any legal parameters and any audio; each output sample is the input plus the interpolated delayed sample at the chorus level, saturated, and write position and LFO phase wrap round exactly. A bypassed or muted chorus leaves the audio untouched, copying it when input and output differ.',
     [INP, HIS], 'every parameter id and value, every legal internal state, every block',
     'The decode tests use one preset; out-of-range indices depend on the LFO phase and write position over time.',
     [L + 'eas_chorus.c', L + 'eas_chorus.h'], [('ChorusSetParam, ChorusGetParam, ChorusProcess, ChorusUpdate, WeightedTap, ChorusInit', L + 'eas_chorus.c')])

prop('V01', 'Note-off and sustain pedal release exactly the notes they address',
     'A note-off acts on every voice sounding that key on that channel of that stream and on no other voice: the voice is released at once, or marked to be released later if the sustain pedal is down or it has not produced audio yet; a pending stolen voice remembers the note-off for its new note. Lifting the pedal releases exactly the voices of that channel whose note-off was held back, and pressing it re-catches exactly the releasing voices of that channel.',
     [INP, HIS], 'every voice table, channel state, stream, channel and key',
     'The test files never mix streams and pedal, and stuck or cut notes are not observed by them.',
     [L + 'eas_voicemgt.c', L + 'eas_wtsynth.c'],
     [('VMStopNote, VMReleaseVoice, VMReleaseAllDeferredNoteOffs, VMCatchNotesForSustainPedal, VMDeferredStopNote', L + 'eas_voicemgt.c'), ('WT_ReleaseVoice, WT_SustainPedal', L + 'eas_wtsynth.c')],
     state=[{'name': 'voices[]', 'meaning': 'state, channel, key and flags of each voice', 'where': L + 'eas_synth.h'}])

prop('V02', 'Starting a note uses a free voice within the limits, or steals one',
     'Starting a note takes exactly one voice: a free one when both the global and the stream voice limit leave room, otherwise the best voice allowed by the stealing rule, otherwise the note is dropped; every other voice keeps its note. Active-voice counts of the engine, the stream and the priority pool always change by exactly the voices that were taken or freed, so the limits are never exceeded by new notes. When two voices of a channel already play the key of a new note, the new note takes over the oldest of them unless the instrument allows more, and notes of the same exclusive key group silence each other.',
     [INP, HIS], 'every voice table, limits, stream priorities, channel, key and instrument region',
     'Counts drift and wrong voices are stolen only after particular histories under load; the tests never reach the limits with several streams.',
     [L + 'eas_voicemgt.c'],
     [('VMStartVoice, VMFindAvailableVoice, VMStealVoice, VMStolenVoice, VMFreeVoice, VMCheckKeyGroup, VMCheckPolyphonyLimiting, IncVoicePoolCount, DecVoicePoolCount', L + 'eas_voicemgt.c')])

prop('V03', 'Voice stealing respects stream priority and picks the best candidate',
     'A note never takes a voice from a stream of higher priority (numerically lower); among the other voices it takes one with the highest steal score, where a fresh voice scores by how quiet it is, an older voice scores by its age and low gain, over-allocated pools score first, and a voice on the same key and channel gets a bonus. When no voice may be taken the request fails and nothing changes.',
     [INP], 'every voice table, stream priorities and requesting note',
     'Needs many voices on several streams with distinct priorities; no test has that.',
     [L + 'eas_voicemgt.c'], [('VMStealVoice', L + 'eas_voicemgt.c')])

prop('V04', 'Polyphony limits are validated, stored and enforced',
     'Setting the engine polyphony limit clamps it to 1..64 voices and reads back the clamped value; setting a stream limit refuses negative values, treats 0 and anything above 64 as no limit, and reads back what is in force. Surplus voices - those with the highest steal scores, of that stream only for a stream limit - are silenced so that no more than the limit keep sounding; all other voices keep sounding. Setting a stream priority is validated and reads back.',
     [INP, HIS], 'every voice table, stream and requested limit',
     'No test changes polyphony while notes sound.',
     [L + 'eas_voicemgt.c', L + 'eas_public.c'], [('VMSetSynthPolyphony, VMSetPolyphony, VMGetPolyphony', L + 'eas_voicemgt.c'), ('EAS_SetPolyphony, EAS_SetSynthPolyphony', L + 'eas_public.c')])

prop('V05', 'A note-on sounds exactly the instrument regions that match it',
     'A note-on on an unmuted channel starts one voice for the first built-in region (or one for every downloadable region) of the current program whose key range - and velocity range, for downloadable ones - contains the transposed key clamped to 0..127; global transposition does not apply to rhythm channels. Muted channels start nothing, and the region search never leaves the current instrument.',
     [INP], 'every instrument region list, channel state, transposition, key and velocity',
     'Layering, transposition extremes and muted channels are not covered by the five files.',
     [L + 'eas_voicemgt.c'], [('VMStartNote', L + 'eas_voicemgt.c')])

prop('V06', 'Channel messages change exactly the controller they name',
     'Each controller, pitch-bend and pressure message updates only its own parameter of its own channel with the received value; pitch bend is the 14-bit value, bank select sets its own half, unknown controllers change nothing audible. A data entry acts on the registered parameter selected by the last RPN MSB and LSB (bend range, fine tuning, coarse tuning), and is ignored after an NRPN select. Reset-all-controllers restores the defaults and lets go of notes held by the pedal.',
     [INP, HIS], 'every channel state, controller number and value, and sequence of RPN messages',
     'The files use a few controllers; isolation between channels and parameters is not observed.',
     [L + 'eas_voicemgt.c'], [('VMControlChange, VMPitchBend, VMChannelPressure, VMUpdateRPNStateMachine', L + 'eas_voicemgt.c')])

prop('V07', 'Program change selects the instrument by the documented fallback order',
     'A program change first looks in the downloadable collection - exact bank and program, then the equivalent bank without the GM prefix, then the default bank, then for drum channels the default kit - and then in the built-in library - exact bank, then the default melody or rhythm bank, then program 0 of that bank. The first hit decides the instrument, the chosen program number is stored, the rhythm flag follows the bank, and no table entry outside the library is read.',
     [INP], 'every library and collection content, bank, program and channel state',
     'The test files use only default banks that always exist.',
     [L + 'eas_voicemgt.c'], [('VMProgramChange, VMFindProgram, VMFindDLSProgram', L + 'eas_voicemgt.c')])

prop('V08', 'Scalable-polyphony tables mute exactly the channels that do not fit',
     'After a scalable-polyphony message each listed channel receives its priority and its cumulative voice requirement in message order; a channel is muted exactly when its requirement is missing or exceeds the polyphony limit of the stream (of the engine when the stream has none), and channels that share a requirement share one voice pool whose allocation is the difference to the previous requirement. Voices on newly muted channels are released, others keep sounding.',
     [INP], 'every table of up to 16 channels, every limit and voice table',
     'No test file carries such a message.',
     [L + 'eas_voicemgt.c', L + 'eas_midi.c'], [('VMInitMIPTable, VMSetMIPEntry, VMUpdateMIPTable, VMMIPUpdateChannelMuting', L + 'eas_voicemgt.c')])

prop('V09', 'Synthesizer instances are created, shared and released exactly once',
     'A new stream gets a synthesizer slot that no live stream uses, or an error when all slots or memory are exhausted; a shared synthesizer is released only when its last user closes it, at which point all its voices are freed, its counts are removed from the engine and its memory and its reference to downloadable sounds are given back once. Failure paths leave the slots, the memory and the reference counts as they were.',
     [HIS, FLT], 'every slot occupancy, reference count, voice table and allocation failure',
     'Tests open one stream at a time and never fail an allocation.',
     [L + 'eas_voicemgt.c'], [('VMInitMIDI, VMIncRefCount, VMMIDIShutdown, VMReset, VMSetDLSLib', L + 'eas_voicemgt.c')])

prop('M01', 'The MIDI byte-stream parser decodes exactly the messages in the stream',
     'Every byte sequence is decoded according to the MIDI 1.0 byte-stream rules: running status repeats the last channel status, system common messages cancel it, real-time bytes never disturb it, and each complete channel message is dispatched once with its own channel and 7-bit data. A note-on with velocity zero is a note-off; when the caller only gathers metadata nothing reaches the synthesizer.',
     [INP, HIS], 'every byte and every reachable parser state',
     'The files contain well-formed data only; interrupted, running and interleaved messages are not enumerated by them.',
     [L + 'eas_midi.c'], [('EAS_ParseMIDIStream, ProcessMIDIMessage, EAS_InitMIDIStream', L + 'eas_midi.c')])

prop('M02', 'System-exclusive messages are recognised and applied only when complete',
     'The universal GM-on, master-volume and scalable-polyphony messages take effect with exactly the transmitted values and exactly when their signature and data have been received in full: GM on resets the synthesizer of that stream and switches scalable polyphony off, master volume sets the stream volume to the square of the received fraction, and a scalable-polyphony table is applied at its 16th entry or at the terminator after a whole entry, while a truncated or malformed table only leaves scalable polyphony switched off. All other system-exclusive content has no effect, and a terminator or any other status byte except real-time ones ends the message.',
     [INP, HIS], 'every byte and every reachable system-exclusive parser state',
     'The test files contain at most a reset message.',
     [L + 'eas_midi.c'], [('EAS_ParseMIDIStream, ProcessSysExMessage, EAS_InitMIDIStream', L + 'eas_midi.c')])

prop('S01', 'MIDI-file times are decoded exactly',
     'A variable-length quantity is the big-endian base-128 number in the file; a track event time is the exact sum of its delta times (a sum beyond 32 bits is a format error), and conversion to playback time is exact in the tick length, which is tempo divided by the division of the header, rounded to 1/1024 ms and limited to 65535 of them; it is 120 beats per minute until a tempo event replaces it from its own position on, and frame-based divisions count as 192 ticks per quarter. Header and meta-event lengths are honoured, so that longer headers and unknown events are skipped, and metadata text is cut to the buffer of the caller.',
     [INP], 'every byte sequence, division and tempo',
     'Five files cover a few encodings and tempos; extreme encodings and divisions are not sampled.',
     [L + 'eas_smf.c'], [('SMF_GetVarLenData, SMF_GetDeltaTime, SMF_UpdateTime, SMF_ParseHeader, SMF_ParseMetaEvent, SMF_SetDefaultTempo', L + 'eas_smf.c')])

prop('S02', 'Tracks are merged in time order and the song ends when all tracks end',
     'Playback always handles next an event of the track with the smallest pending time (the earlier track on ties), handing every byte of that event once and in order to the parser of that track, never handles an event of a finished track, and reports the end of the song, releasing its notes, exactly when every track has ended. A track ends at its end-of-track event or when the file runs out, without affecting the other tracks; every track of the header starts at its own track chunk with its own file handle, other chunks being skipped.',
     [INP, HIS], 'every set of tracks, pending times and events',
     'Tie-breaking, early track ends and damaged tracks are not covered by the test files.',
     [L + 'eas_smf.c'], [('SMF_Event, SMF_ParseEvent, SMF_ParseSysEx, SMF_ParseHeader', L + 'eas_smf.c')])

prop('S03', 'The song player moves only along its documented states',
     'A recognised song is open and is prepared once: it becomes ready, or, when its header is refused, can only be closed any more. It stops or is paused exactly when the last of its voices has ended after it was stopping or pausing; a stopped song refuses pause and resume and does not change. Rewinding resets the synthesizer, puts every track at its first event with a fresh parser, and restores tempo and time to those of a song just prepared. Closing gives back every file handle, the synthesizer and all memory of the song exactly once, from every state, including after a failed preparation.',
     [HIS, FLT], 'every player state, request and allocation/file failure',
     'Tests drive the one ordinary sequence of requests.',
     [L + 'eas_smf.c'], [('SMF_CheckFileType, SMF_Prepare, SMF_State, SMF_Pause, SMF_Resume, SMF_Reset, SMF_Close', L + 'eas_smf.c')])

prop('F01', 'File reads return exactly the bytes of the file and never more',
     'Every read returns the bytes at the current position, advances the position by the number of bytes delivered, never reads past the end of the file (a short read reports end of file with the number actually read), and 16- and 32-bit reads assemble bytes in the requested byte order. Seeking outside 0..length is refused without moving.',
     [INP, HIS], 'every file size, position, count, and offset, including negative and overflowing ones',
     'Well-formed files never hit short reads or wild seeks.',
     [H + 'eas_hostmm.c'], [('EAS_HWReadFile, EAS_HWGetByte, EAS_HWGetWord, EAS_HWGetDWord, EAS_HWFileSeek, EAS_HWFileSeekOfs, EAS_HWFilePos, EAS_HWFileLength', H + 'eas_hostmm.c')])

prop('F02', 'File handles are independent, bounded and never leaked or reused while open',
     'Opening or duplicating a file returns a handle no other open file uses, or an error when all are taken, leaving the others untouched; a duplicate starts at the same position over the same data and then moves independently; closing frees exactly that handle and refuses a handle that is not open.',
     [HIS, FLT], 'every occupancy of the handle table',
     'Tests never exhaust the table or close twice.',
     [H + 'eas_hostmm.c'], [('EAS_HWOpenFile, EAS_HWDupHandle, EAS_HWCloseFile', H + 'eas_hostmm.c')])

prop('A01', 'Public parameters are validated: accepted values read back, others change nothing',
     'Volumes are accepted from 0 to 100, playback rates from half to double, transpositions from -12 to 12, priorities from 1 to 15; any other value, a negative or too large module number or a module that is absent, and (except for the rate) a stream that is not prepared, are refused with an error and nothing changes. An accepted volume or repeat count is the one read back; polyphony, priority, transposition and module parameters reach the parser, else the synthesizer of the stream addressed (or the module addressed) with the value given, and the getters return what that one reports. No other stream and no engine state is touched.',
     [INP], 'every argument value and stream/engine state',
     'No test passes illegal arguments or reads values back.',
     [L + 'eas_public.c'], [('EAS_SetVolume/GetVolume, EAS_SetPriority, EAS_SetPlaybackRate, EAS_SetTransposition, EAS_SetParameter/GetParameter, EAS_SetPolyphony', L + 'eas_public.c')])

prop('A02', 'Streams are opened, prepared, rendered and closed in order',
     'Opening a file or a MIDI stream takes one slot no live stream uses, or reports an error when none is free; every failure on the way takes no slot and closes the file again, once. Prepare, pause, resume, locate, metadata and close are accepted only in the states documented for them and otherwise return an error without side effects, also for MIDI streams, which have no file. Closing frees the slot and what the stream owned; shutting down does so for every open stream. No operation touches another stream.',
     [HIS, FLT], 'every stream table, state and callee failure',
     'Tests use one stream and the success path.',
     [L + 'eas_public.c'], [('EAS_AllocateStream, EAS_OpenFile, EAS_Prepare, EAS_Render, EAS_Pause, EAS_Resume, EAS_CloseFile', L + 'eas_public.c')])

prop('A03', 'Playback time advances by exactly the rendered audio',
     'Each render call that completes produces exactly one block of the configured size and advances the time rendered by exactly that block; every open stream is parsed once, to its own clock plus one block scaled with its playback rate (1486/256 ms at the normal rate, half to double of it). Events are processed one by one up to, and not beyond, the clock, and none after a song has stopped. A parse cut short by the work limit or the host, and any failure, produces no audio, leaves the time rendered and the clock of that stream standing, and the streams already parsed are not parsed twice. The reported location is the clock in milliseconds.',
     [INP, HIS], 'every clock value, rate and stream set',
     'The tests check total length of five files at the normal rate only.',
     [L + 'eas_public.c'], [('EAS_Render, EAS_ParseEvents, EAS_GetLocation, EAS_SetPlaybackRate', L + 'eas_public.c')])

prop('D01', 'Downloadable-instrument units are converted within range',
     'Every articulation value of a downloadable instrument file is converted to engine units by the documented law for its field and stays in the range of that field: envelope times and rates, sustain and delay levels 0 to full scale, pan -63 to 63, filter Q 0 to 30, LFO rates clipped to their limits, with the documented result for the value meaning zero. A connection block sets the one parameter its source, control and destination name and no other, and an unknown one sets none. A region takes gain, loop and tuning from its wave, and is looped exactly when the loop has a length.',
     [INP], 'every 32-bit value in the file',
     'No test loads a downloadable instrument file.',
     [L + 'eas_mdls.c'], [('ConvertDelay, ConvertRate, ConvertSustain, ConvertPan, ConvertQ, ConvertLFOPhaseIncrement', L + 'eas_mdls.c')])

prop('D02', 'Loading a downloadable-instrument file never writes outside what it allocated',
     'For every file content and every read or allocation failure, loading either succeeds with all region, articulation, program and sample references inside the loaded collection, or fails with an error and releases all memory and file handles; instruments always end in a terminated region list.',
     [INP, FLT], 'every file content, read failure and allocation failure',
     'No test loads a downloadable instrument file at all.',
     [L + 'eas_mdls.c'], [('DLSParser, Parse_lins, Parse_ins, Parse_lrgn, Parse_rgn, Parse_ptbl, Parse_wave', L + 'eas_mdls.c')])

prop('D03', 'Downloadable collections are freed exactly when the last user lets go',
     'A loaded collection is shared by counting its users; adding a user and releasing a user change the count by one, the memory is given back exactly once when the count reaches zero, and releasing nothing is harmless.',
     [HIS], 'every reference count and owner sequence',
     'No test loads a downloadable instrument file at all.',
     [L + 'eas_mdls.c', L + 'eas_voicemgt.c'], [('DLSAddRef, DLSCleanup', L + 'eas_mdls.c'), ('VMSetDLSLib, VMSetGlobalDLSLib', L + 'eas_voicemgt.c')])

prop('L01', 'The built-in sound library is internally consistent',
     'Every program and bank entry of the built-in library leads to a region list that ends inside the region table; every region refers to an existing articulation and waveform, has an ordered key range, and its loop lies inside its waveform, which lies inside the sample data; a default melody and rhythm program exist. Whatever bank and program is selected, the channel gets an instrument of the library and a note of it starts inside its waveform. A library of another version, sample rate or sample format is refused, and the one in use stays.',
     [CFG], 'every entry of the library tables',
     'The files play a few programs; a broken entry elsewhere would not be noticed.',
     [L + 'wt_200k_G.c', L + 'eas_sndlib.h'], [('easSoundLib tables', L + 'wt_200k_G.c'), ('VMValidateEASLib, VMSetGlobalEASLib, VMSetEASLib, VMFindProgram, VMProgramChange', L + 'eas_voicemgt.c'), ('WT_StartVoice', L + 'eas_wtsynth.c')])
