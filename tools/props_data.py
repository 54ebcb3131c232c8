p("C01","Unwrapped sequence numbers stay faithful across wraparounds",
 "Each 16-bit packet number fed to the unwrapper yields a non-negative 64-bit position congruent to it modulo 65536. A number ahead of the newest position (shortest way round the 16-bit circle) yields the newest position plus that distance and becomes the new newest; a number behind it, or equal to it, yields the newest position minus that distance and leaves the newest unchanged. Only when that smaller position would not be positive is the whole numbering moved up by exactly one cycle of 65536.",
 ["inputs","histories"],"for every history of packet numbers (any order, loss, duplication, any number of wraparounds) and every next number",
 "The tests feed a few dozen hand-picked numbers around one or two wraparounds; the guarantee is over all 2^16 x unbounded-history states.",
 [U+"sequence_unwrapper.go"],[("Unwrap: distance to the newest number against half the range",U+"sequence_unwrapper.go:Unwrap")],
 [("highest number and cycle count","together the newest position",U+"sequence_unwrapper.go:SequenceUnwrapper")],["value returned per packet"])
p("C02","Jitter buffer hands out the right packets, in order, each at most once",
 "Packets handed out by the jitter buffer carry consecutive positions, start at or after the next expected position and move it just past the last one handed out, so no position is ever handed out twice or out of order. Each packet handed out is the very packet most recently accepted for its position, and an accepted packet at or after the next expected position stays stored under its own position, undisturbed by packets for other positions, until it is handed out, skipped over, or slides out of the window because a newer packet arrives. A packet is refused exactly when it is a whole window or more behind the newest, or its slot is already occupied by a packet not newer than the newest one.",
 ["inputs","histories","configurations"],"for every buffer size >= 1 and every history of insertions, deliveries and skips with non-negative positions",
 "Three example sequences are tested with one size each; aliasing of slots (position modulo size) only shows on particular combinations of size, gap and lateness.",
 [U+"jitter_buffer.go","internal/webrtc/webrtc.go"],[("Add: overflow/duplicate checks and clearing of the slots a gap reuses",U+"jitter_buffer.go:Add"),("NextPackets: run of consecutive occupied slots",U+"jitter_buffer.go:NextPackets"),("SetNextPacketsStart/SkipPacket",U+"jitter_buffer.go")],
 [("window of slots","slot position%size holds the packet of that position for every position in the window",U+"jitter_buffer.go:JitterBuffer")],["packets returned","next expected position"])
p("C03","Missing packets are waited for, then skipped, and the skip is reported",
 "When the next expected packet is missing, the jitter buffer hands out nothing until the configured timeout has elapsed since it first noticed that this very packet was missing; it then moves past the missing positions only, never past a packet it holds. The caller is told of the skip: the skip indication is set exactly when at least one missing position was passed in that call, and the last position passed can be fetched once. An explicit request to skip a position has an effect only when that position is the next expected one.",
 ["inputs","histories","schedules"],"for every buffer state, timeout and arrangement of present and missing packets, at every clock reading",
 "Timeout behaviour depends on clock readings at every call; tests sleep once for one gap.",
 [U+"jitter_buffer.go"],[("missing-packet timers",U+"jitter_buffer.go:NextPackets"),("SkipPacket",U+"jitter_buffer.go:SkipPacket"),("last skipped position",U+"jitter_buffer.go:GetAndClearLastSkipped")],None,["packets returned, skip indication, last skipped position"])
p("C04","Receive log reports exactly the packets that were lost",
 "Within the window behind the newest packet, the receive log says a packet was received if and only if that very packet number was added or given up on since the window last moved over it, and never says so for numbers outside the window. The list of missing packets consists only of numbers inside the window that were not received, in ascending order, and contains every such number from the oldest still-missing one up to the requested distance from the newest. Packets that are too old for the window change nothing.",
 ["inputs","histories"],"for every valid window size, every history of additions (loss, reordering, duplication, wraparound) and give-ups, and every query",
 "Sizes 64..32768 and 2^16 numbers give far more states than the examples tested; slot aliasing needs particular size/lateness combinations.",
 [U+"receive_log.go","internal/webrtc/webrtc.go"],[("Add: clearing of the slots a jump reuses, oldest-missing tracking",U+"receive_log.go:Add"),("MissingSeqNumbers",U+"receive_log.go:MissingSeqNumbers"),("IgnoreSeqNum",U+"receive_log.go:IgnoreSeqNum")],
 [("bitmap","bit number%size is set iff the number of the window mapping there was received",U+"receive_log.go:ReceiveLog")],["Get and MissingSeqNumbers results"])
p("C05","Retransmission requests name exactly the lost packets",
 "Packing any list of 16-bit packet numbers into retransmission-request pairs and expanding the pairs again yields exactly the same set of packet numbers: none is lost and none is added. The first number of the list is the first number of the first pair, an empty list packs to nothing, and expanding any list of pairs yields exactly the numbers the RTCP generic NACK format (base number plus a 16-bit mask of the following ones) denotes.",
 ["inputs"],"for every list of 16-bit numbers (any length, order, duplicates, wraparound) and every list of pairs",
 "The test round-trips one fixed list.",
 [U+"nack.go"],[("NackPairs: 17-wide windows",U+"nack.go:NackPairs"),("NackPairsToSequenceNumbers",U+"nack.go:NackPairsToSequenceNumbers")],None,["pairs sent in RTCP"])
p("C06","Send buffer returns the packet with the requested number or nothing",
 "Asking the send buffer for a packet number returns either nothing or a stored packet carrying exactly that number; it returns the stored packet whenever that number was added within the last window behind the newest one. Adding an older packet never hides or replaces a newer one.",
 ["inputs","histories"],"for every allowed size and every history of additions and lookups (reordering, loss, wraparound)",
 "Slot aliasing depends on size, gap and lateness; tests try a handful of sequences.",
 [U+"send_buffer.go"],[("Add: clearing of the slots a jump reuses",U+"send_buffer.go:Add"),("Get: window check",U+"send_buffer.go:Get")],None,["Get result"])
p("C07","No control message can crash the recorder or be misread",
 "Whatever bytes arrive on the control channel, decoding them either yields an event whose payload has exactly the type its identifier announces, or yields nothing, and anything that yields nothing is ignored. Handling a control message never panics, and one that is neither a start request, nor a stop request for a known session, nor a status request publishes nothing and changes neither the session table nor the active-session count; a status request is answered with one recorder status.",
 ["inputs"],"for every byte sequence delivered on the control channel and every state of the session table",
 "The space of byte strings is unbounded; the tests decode a few well-formed messages and never drive the handler.",
 [E+"decode.go",E+"events.go",S+"server.go"],[("Decode: identifier to payload type",E+"decode.go:Decode"),("accessors",E+"events.go"),("HandlePubSub dispatch",S+"server.go:HandlePubSub")],None,["process survival","published messages"])
p("C08","Start requests are validated and answered with well-formed responses",
 "A start request passes validation exactly when it names the LiveKit adapter with a non-empty room and at least one track, or names the mediasoup adapter with a non-empty SDP offer in the adapter options or the legacy field, or names neither and has a non-empty legacy offer. The offer used is the one in the adapter options when present and non-empty, else the legacy one. Every response built for a request carries that request's session id, and is either a success with answer and file name and no error, or a failure with an error text and no answer, so that it passes the response validation.",
 ["inputs"],"for every request (every combination of present, absent and empty fields) and every error",
 "Tests cover a table of examples; the property is over all field combinations and strings.",
 [E+"events.go"],[("Validate",E+"events.go:StartRecording.Validate"),("GetSDP",E+"events.go:GetSDP"),("Fail/Success/response Validate",E+"events.go")],None,["responses on the publish channel"])
p("C09","Every start request gets exactly one truthful answer",
 "Handling a start request publishes exactly one response, for that session id. The response says ok exactly when the session has been set up without error and is registered afterwards, and then names the recording's file; when it says failed, the session table and the active-session count are left as they were before the request. A request whose session id is already in use is refused and leaves the existing session untouched.",
 ["inputs","histories","fault_sequences"],"for every start request, every prior session table, and every way set-up can fail (validation, file system, media engine error or panic)",
 "The handler has no tests; failure at each set-up step combines with every session table.",
 [S+"server.go",S+"session.go"],[("HandlePubSub startRecording branch",S+"server.go:HandlePubSub"),("StartRecording",S+"session.go:StartRecording")],[("session table","sessions by id",S+"server.go:Server.sessions")],["messages on the publish channel","session table","sessions gauge"])
p("C10","Stopping closes a recording once and keeps the books balanced",
 "A stop request for a known session closes its recorder, lowers the active-session count by one unless the session was stopped before, publishes exactly one stopped message for that session id, and removes exactly that session; for an unknown session it does nothing at all. However often and in whatever order a session is stopped (request or connection loss), its recorder is closed exactly once and the count lowered exactly once.",
 ["inputs","histories"],"for every session table and every sequence of stop requests and connection state changes (handled one at a time)",
 "No test drives sessions; double stop and stop-after-disconnect need multi-step histories.",
 [S+"server.go",S+"session.go"],[("stopRecording branch",S+"server.go:HandlePubSub"),("StopRecording stopped flag",S+"session.go:StopRecording"),("connection state callback",S+"session.go:StartRecording")],[("stopped flag","recorder already closed and gauge already lowered",S+"session.go:Session")],["messages on the publish channel","sessions gauge","recorder closed"])
p("C11","Recordings only go to new .webm files inside the recording directory",
 "For any requested file name, preparing a recording either fails or yields a .webm path lexically inside the configured recording directory (or the null device when so configured) that did not exist at that moment. It fails, before touching the file system, for names with another extension; it fails when the configured directory is missing or a configured mode it needs is not a number; missing sub-directories are created with the configured directory mode and the file is opened with the configured file mode.",
 ["inputs","configurations"],"for every requested name (including .., absolute, empty, nested) and every configuration and file-system state",
 "File names come from the network; no test calls the preparation code.",
 [R+"recorder.go",R+"webm.go"],[("ValidateAndPrepareFile",R+"recorder.go:ValidateAndPrepareFile"),("NewRecorder extension switch",R+"recorder.go:NewRecorder"),("initWriter open",R+"webm.go:initWriter")],None,["path reported in the response","file system"])
p("C12","No media packet can crash the recorder",
 "Pushing a media packet with any payload, header values and history into the recorder, or notifying it of a skipped packet, never causes a run-time error: no index out of range, nil dereference, or blocking on itself. Malformed video packets are dropped. Packets for a track that was not announced, packets with an empty payload, and packets arriving after closing are ignored.",
 ["inputs","histories"],"for every packet payload and header, every recorder state reachable by earlier packets, and both video samplers",
 "The recorder has no tests; crashing payloads are a few bytes among all byte strings.",
 [R+"webm.go"],[("payload length checks around VP8 parsing",R+"webm.go:pushVP8Custom"),("IsVP8KeyFrame/GetVP8KFDimension",R+"webm.go"),("validateVP8Frame",R+"webm.go:validateVP8Frame")],None,["process survival"])
p("C13","Only complete frames are written, assembled from consecutive packets",
 "Every video frame written by the default sampler is exactly the concatenation of the VP8 payloads of consecutively numbered packets, the first of which starts a frame and the last of which carries the end-of-frame marker, with no other frame start in between. A packet contributes to at most one written frame and at most one frame is written per packet. A partial frame interrupted by a sequence gap, a reported skip, or the start of another frame is never written. The built-in samplers (audio always, video when so configured) write each sample at most once, unaltered, to the writer of its own track.",
 ["inputs","histories"],"for every sequence of packets pushed and skips reported",
 "Corruption needs particular losses inside particular frames; the recorder has no tests.",
 [R+"webm.go"],[("frame assembly",R+"webm.go:pushVP8Custom"),("skip handling",R+"webm.go:NotifySkippedPacket")],[("frame in progress","bytes and packet range collected so far",R+"webm.go:WebmRecorder.currentFrame")],["blocks passed to the WebM video writer"])
p("C14","Recorded video starts with, and recovers from damage at, a keyframe",
 "The first video frame written by the default sampler, and the first one written to any (re)opened output file, is a keyframe; after any discarded, damaged, missing (as shown by the PictureID), invalid or unwritable frame, nothing is written until the next keyframe. A written frame is flagged as a keyframe exactly when its VP8 frame header says so, and every such loss makes the recorder ask the sender for a keyframe, unless it asked for one, or resynchronised on a keyframe it did not expect, within the last second.",
 ["inputs","histories"],"for every sequence of packets pushed, skips reported and write failures",
 "Needs multi-packet keyframes, losses at particular points, and write errors; the recorder has no tests.",
 [R+"webm.go"],[("keyframe gate",R+"webm.go:pushVP8Custom"),("RequestKeyframe rate limit",R+"webm.go:RequestKeyframe"),("writer initialisation",R+"webm.go:initWriter")],[("keyframe gate","a keyframe has been seen since the last damage",R+"webm.go:WebmRecorder.hasKeyFrame")],["blocks passed to the WebM video writer","keyframe requests"])
p("C15","Timestamps of written media never run backwards and follow the media clock",
 "Each block written for a track carries a time in milliseconds that is not smaller than that of the track's previous block. With the default sampler a written video frame's time is the previous written frame's time plus the RTP timestamp advance (modulo 2^32) at 90 kHz, counted from the first keyframe; with the built-in samplers it is the running sum of the sample durations. The reported video and audio positions are those of the last block handed to the track's writer.",
 ["inputs","histories"],"for every sequence of packets, including RTP timestamp wraparound",
 "Tests never write media; wraparound and long histories cannot be sampled.",
 [R+"webm.go"],[("duration accumulation",R+"webm.go:pushVP8Custom"),("duration accumulation, audio",R+"webm.go:pushOpus"),("duration accumulation, built-in video",R+"webm.go:pushVP8Builtin")],None,["blocks passed to the WebM writers","VideoTimestamp/AudioTimestamp"])
p("C16","Closing a recorder is final and idempotent",
 "Closing a recorder closes each open track writer and the IVF copy exactly once and returns the last written video position; closing it again closes nothing more and returns the same position. After closing, nothing is written to any file, no file is opened, and the reported positions no longer change, whatever packets still arrive.",
 ["inputs","histories"],"for every recorder state and every sequence of pushes, skips and closes after the first close",
 "Needs close combined with every state and late packets; no tests.",
 [R+"webm.go",R+"ivfwriter.go"],[("closed flag",R+"webm.go:close"),("IVF closed flag",R+"ivfwriter.go:Close")],[("closed flag","no further output",R+"webm.go:WebmRecorder.closed")],["writer Close/Write calls"])
p("C17","Messages published to redis never leak connections and are sent verbatim",
 "Publishing opens one connection, sends exactly one PUBLISH with the given channel and the given bytes, and closes the connection again on success and on failure alike, reporting any failure. Checking the server at start-up and listening on channels likewise close every connection they open before returning.",
 ["inputs","fault_sequences"],"for every channel, message, and every failure of dialling, sending or closing",
 "There are no tests for the redis layer; leaks show only under failures over time.",
 ["internal/pubsub/redis/redis.go","internal/pubsub/redis.go"],[("deferred close",  "internal/pubsub/redis/redis.go:Publish"),("deferred close","internal/pubsub/redis/redis.go:ListenChannels")],None,["redis connections","PUBLISH commands"])
p("C18","LiveKit sessions subscribe to exactly the requested tracks",
 "Subscribing a LiveKit session requests every published track whose id is in the requested list that is not yet subscribed, and no other track. The recorder is told it has audio, or video, exactly when a requested track of that kind was found before any failure, and the first failing subscription makes the whole operation fail.",
 ["inputs","configurations"],"for every set of participants, publications (kinds, ids, subscription states) and requested ids",
 "No tests; the room contents are arbitrary.",
 ["internal/webrtc/livekit/livekit.go"],[("subscribeToTracks",  "internal/webrtc/livekit/livekit.go:subscribeToTracks"),("subscribe","internal/webrtc/livekit/livekit.go:subscribe")],None,["subscription requests","hasAudio/hasVideo"])
p("C19","Flow notifications are sent on changes only",
 "For each LiveKit track the first observed packet only records its position; afterwards a track counts as flowing exactly when its latest observed packet number differs from the previous one, and a notification is sent exactly when this status changes. So notifications for one track strictly alternate between flowing and not flowing, beginning with flowing, and each carries the largest last timestamp over all tracks of the session. A mediasoup track counts as flowing exactly when the number of the packet last pushed to the recorder (0 before the first) changed between two periodic checks; its callback is told each change and nothing else, beginning with flowing, and is told the end exactly once, as not flowing.",
 ["inputs","histories"],"for every sequence of observations over any set of tracks",
 "No tests; alternation is a property of unbounded histories.",
 ["internal/webrtc/livekit/livekit.go","internal/webrtc/webrtc.go"],[("updateFlowState",  "internal/webrtc/livekit/livekit.go:updateFlowState"),("flow check of a mediasoup track","internal/webrtc/webrtc.go:Init")],[("per-track flow state","last number, last timestamp, flowing flag","internal/webrtc/livekit/livekit.go:TrackFlowState")],["recordingRtpStatusChanged messages"])
p("C20","Set-up uses what it was given; keyframe requests reach every video source",
 "Callbacks and the SDP offer set on a mediasoup session before it is initialised are the ones initialisation uses: initialisation is refused with an error when one of them was never set, and is not refused for that reason once all were set. A keyframe request sends exactly one picture-loss indication to each known video source of a mediasoup session, counts it for that source and leaves the counts of the others alone; a LiveKit session sends its request for a source to every remote participant while it is connected and counts what it sent. Requests and new tracks may come at the same time: the table of sources is only used while its lock is held.",
 ["inputs","histories","schedules"],"for every combination and order of setter calls, every set of video sources, participants and earlier requests, and every schedule of requests and new tracks",
 "No tests; the combination of setters and initialisation is never exercised, and a concurrent table access needs a particular schedule.",
 ["internal/webrtc/webrtc.go","internal/webrtc/livekit/livekit.go",S+"session.go"],[("setters","internal/webrtc/webrtc.go"),("validateInitParams","internal/webrtc/webrtc.go:validateInitParams"),("RequestKeyframe","internal/webrtc/webrtc.go:RequestKeyframe"),("LiveKit RequestKeyframe","internal/webrtc/livekit/livekit.go:RequestKeyframe")],None,["start responses","RTCP sent"])
p("C21","The IVF copy is a well-formed IVF file of the frames written",
 "The IVF copy consists of a 32-byte header, followed by one record per frame: a 12-byte record header holding the frame's exact byte length and RTP timestamp in little-endian order, then exactly the frame's bytes (for frames below 4 GiB and as long as the file system reports no error). Updating the dimensions or the frame count rewrites only those header fields and returns to the end of the file, and closing stores the number of frames written.",
 ["inputs","histories"],"for every sequence of dimension updates, frame writes (any size and content) and closes",
 "No tests; corruption depends on interleaving of header updates with frame writes and on the frame count.",
 [R+"ivfwriter.go",R+"webm.go"],[("writeIVFHeader/UpdateDimensions/WriteFrame/Close",R+"ivfwriter.go")],None,["bytes of the IVF file"])
p("C22","Browser test page answers reach the request they belong to",
 "Every web request that posts an SDP offer to the test page's server asks for exactly one recording session, with an id no other request has and for exactly that offer, and is answered with the SDP answer of the response for that session id, verbatim; that answer goes to no other request. A response for a session no web request is waiting for, a failure response, and any malformed message change nothing for the waiting requests and do not crash the server, and handing over an answer never waits for anything. The table of waiting requests is only used under its lock.",
 ["inputs","histories","schedules"],"for every message on the response channel, every set of waiting requests and every interleaving of requests and responses",
 "No tests for the HTTP server; foreign responses only occur in mixed deployments, and requests within the same second or an answer that overtakes its request need a schedule no test produces.",
 [S+"http.go"],[("answer dispatch",S+"http.go:Serve"),("request handler",S+"http.go:serve")],None,["HTTP response bodies","messages published","process survival"])
p("C23","The receive loops feed each packet to its own track, in order",
 "Every packet read from a mediasoup track is given to the track's jitter buffer under its unwrapped number, and exactly the packets the buffer releases are pushed, in that order and once each, to the recorder's audio input for audio tracks and to its video input for video tracks; the same holds for the packets a LiveKit track's buffer releases. A skip reported by the mediasoup jitter buffer reaches the recorder before any packet released with or after it. The mediasoup loop's own retransmission requests for a track name only packets missing at that moment, name each missing packet that was not given up, and name a packet at most ten times before it is given up; the buffer stops waiting for a given-up packet it is waiting for. What the loop shares with its timers is only used under its lock.",
 ["inputs","histories","schedules"],"for every sequence of packets read from a track, every loss pattern and every schedule of the retransmission and flow timers",
 "The loops need a live peer connection; nothing tests them, and losses, wraparound and the timers' schedules cannot be sampled.",
 ["internal/webrtc/webrtc.go","internal/webrtc/livekit/livekit.go","internal/webrtc/utils/jitter_buffer.go","internal/webrtc/utils/receive_log.go"],[("OnTrack read loop","internal/webrtc/webrtc.go:Init"),("NACK ticker goroutine","internal/webrtc/webrtc.go:Init"),("LiveKit read loop","internal/webrtc/livekit/livekit.go:onTrackSubscribed")],None,["recorder inputs","RTCP sent"])
p("C24","Configuration dump prints the addressed value or fails cleanly",
 "Asking the program for a configuration value by a dotted path prints exactly that value, once, as YAML, and exits with status 0 if the path leads to one; otherwise nothing is printed and it exits with failure. It never panics on any path over a configuration that was loaded. A path component selects an element of a list by its decimal index, counted from 0, and an entry of a mapping by its exact name; every value on the way must be a list, a mapping with string keys, a string, a boolean or an integer, and the path 'all' stands for the whole configuration.",
 ["inputs","configurations"],"for every path string and every configuration",
 "No tests; negative or oversized list indexes are unusual inputs.",
 ["internal/app/config.go"],[("dumpConfig path walk","internal/app/config.go:dumpConfig")],None,["exit status and output of --dump"])

p("C25","A recording is started over only until every announced track has been recorded",
 "The recorder opens an output file only while at least one announced track has not had a block handed to its writer in the current file: once every announced track has been recorded, no later packet, resolution change or loss opens a file again, so nothing recorded is truncated.",
 ["inputs","histories"],"for every sequence of packets, skips, write failures and changes of the announced tracks",
 "Re-opening truncates the file that holds the recording; it depends on the order in which tracks become valid and the recorder has no tests.",
 [R+"webm.go"],[("writer initialisation conditions",R+"webm.go:pushVP8Custom"),("writer initialisation",R+"webm.go:initWriter"),("audio writer initialisation",R+"webm.go:pushOpus")],[("valid tracks","a block of the track has been handed to a writer of the current file",R+"webm.go:WebmRecorder.hasValidVideo")],["files opened for writing"])
