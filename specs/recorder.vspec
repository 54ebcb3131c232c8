// The WebM recorder (C12-C16, C21).

guard recorder.WebmRecorder.m: closed, started, audioWriter, videoWriter, currentFrame, currentFrameInfo, hasKeyFrame, seenKeyFrame, currKeyFrame, expectedNextSeq, lastProcessedSeq, lastSkippedSeq, skipSignaled, packetTimestamp, pts, lastPictureID, ivfWriter, keyframeRequester, lastKeyframeRequestTime, hasValidAudio, hasValidVideo, frameStartTime

// keyframe requests sent; per recorder, no later than when the last one was sent (or the recorder
// resynchronised on a keyframe it had not asked for)
ghost asks int
ghost askAt [ref]int
// what was written to each track writer: number of blocks, time of the last one, how often it was closed
ghost wrote [ref]int
ghost lastTs [ref]int
ghost wclosed [ref]int
// blocks handed to any writer; whether the last one was a keyframe, and refused
ghost wn int
ghost wkf bool
ghost werr bool
ghost opens int
// samples popped from a built-in sampler
ghost lastDur int
ghost lastData ref
ghost lastLen int
ghost pending bool
// what the last block contained; sum of the durations of the samples written
ghost wdata ref
ghost wlen int
ghost wsum int
// per recorder: video was lost since the last keyframe written
ghost damaged [ref]bool

iface interfaces.KeyframeRequester.RequestKeyframe(k)
  modifies asks
  sets asks = old(asks) + 1

iface webm.BlockWriteCloser.Write(w, kf, ts, data) (n, err)
  modifies wrote[ref(w)], lastTs[ref(w)], wn, wkf, werr, wdata, wlen, wsum, pending
  sets wdata = array(data)
  sets wlen = len(data)
  sets wsum = old(wsum) + lastDur
  sets pending = false
  sets wrote[ref(w)] = old(wrote[ref(w)]) + 1
  sets lastTs[ref(w)] = ts
  sets wn = old(wn) + 1
  sets wkf = kf
  sets werr = err != nil
iface webm.BlockWriteCloser.Close(w) (err)
  modifies wclosed[ref(w)]
  sets wclosed[ref(w)] = old(wclosed[ref(w)]) + 1
extern webm.NewSimpleBlockWriter(w, tracks, opts) (ws, err)
  modifies nothing
  ensures err == nil ==> len(ws) == len(tracks)
  ensures err == nil ==> forall i int :: 0 <= i && i < len(ws) ==> ws[i] != nil && fresh(ws[i]) && wrote[ref(ws[i])] == 0 && wclosed[ref(ws[i])] == 0
  ensures err == nil ==> forall i int, j int :: 0 <= i && i < j && j < len(ws) ==> ref(ws[i]) != ref(ws[j])
extern os.OpenFile(name, flag, perm) (f, err)
  modifies opens
  sets opens = old(opens) + 1
  ensures err == nil ==> f != nil && fresh(f)

extern samplebuilder.New(maxLate, d, rate, opts) (r)
  modifies nothing
  ensures r != nil && fresh(r)
extern samplebuilder.SampleBuilder.Push(s, p)
  maypanic
  modifies nothing
extern samplebuilder.SampleBuilder.PopWithTimestamp(s) (sample, ts)
  maypanic
  modifies nothing
  ensures sample != nil ==> fresh(sample) && sample.Duration >= 0
pure qOK(q) = q != nil && q.builder != nil && q.sampleRate >= 1
func recorder.newSampleQueue(maxLate, d, rate) (q)
  requires rate >= 1
  props C12
  modifies nothing
  ensures q: fresh(q) && qOK(q)
func recorder.sampleQueue.Push(q, packet)
  props C12
  requires qOK(q)
  modifies q.builder, q.restarted
  ensures q: qOK(q)
func recorder.sampleQueue.Pop(q) (sample, ts)
  props C12 C15
  requires qOK(q)
  modifies q.builder, q.restarted, q.lastTimestamp, q.hasTimestamp, lastDur, lastData, lastLen, pending
  sets lastDur = (sample != nil ? sample.Duration : old(lastDur))
  sets lastData = (sample != nil ? array(sample.Data) : old(lastData))
  sets lastLen = (sample != nil ? len(sample.Data) : old(lastLen))
  sets pending = sample != nil
  ensures sample: sample != nil ==> fresh(sample)
  ensures q: qOK(q)
  ensures {C15} forward: sample != nil ==> sample.Duration >= 0

pure frameOK(r) = (r.hasKeyFrame || r.lastPictureID > 0 ==> r.seenKeyFrame) && (r.currentFrameInfo != nil ==> len(r.currentFrameInfo.packets) > 0)
  && (r.currentFrame != nil ==> r.currentFrameInfo != nil && len(r.currentFrame) > 0 && r.hasKeyFrame && (r.currentFrameInfo.isKeyFrame <==> r.currentFrame[0] & 1 == 0))
pure tsOK(r) = r.videoTimestamp >= 0 && r.audioTimestamp >= 0
  && (r.videoWriter != nil ==> wrote[ref(r.videoWriter)] >= 0) && (r.audioWriter != nil ==> wrote[ref(r.audioWriter)] >= 0)
  && (r.videoWriter != nil && wrote[ref(r.videoWriter)] > 0 ==> lastTs[ref(r.videoWriter)] == r.videoTimestamp / 1000000)
  && (r.audioWriter != nil && wrote[ref(r.audioWriter)] > 0 ==> lastTs[ref(r.audioWriter)] == r.audioTimestamp / 1000000)
// as long as there is no output, or video was lost since the last keyframe written, only a keyframe is assembled
pure gateOK(r) = r.useCustomSampler && (r.videoWriter == nil || damaged[ref(r)] || wrote[ref(r.videoWriter)] == 0) ==> !r.hasKeyFrame || r.currentFrame != nil && r.currentFrameInfo.isKeyFrame
pure rInv(r) = r != nil && !held(r.m) && rState(r)
pure rState(r) = r.ctx != nil && qOK(r.videoBuilder) && qOK(r.audioBuilder)
  && (r.ivfWriter != nil ==> r.videoWriter != nil && ivfOK(r.ivfWriter))
  && (r.audioWriter != nil && r.videoWriter != nil ==> ref(r.audioWriter) != ref(r.videoWriter))
  && frameOK(r) && tsOK(r) && gateOK(r) && validOK(r) && askOK(r)
pure recorded(r) = (r.hasVideo ==> r.videoWriter != nil && wrote[ref(r.videoWriter)] > 0) && (r.hasAudio ==> r.audioWriter != nil && wrote[ref(r.audioWriter)] > 0)
pure validOK(r) = (r.videoWriter != nil && wrote[ref(r.videoWriter)] > 0 ==> r.hasValidVideo) && (r.audioWriter != nil && wrote[ref(r.audioWriter)] > 0 ==> r.hasValidAudio)
// the recorder has asked for a keyframe since the given instant less a second
pure askedNow(r) = asks > old(asks) || r.keyframeRequester == nil || r.lastKeyframeRequestTime != 0 && old(clock) - askAt[ref(r)] <= 1000000000
pure askOK(r) = r.lastKeyframeRequestTime == 0 || r.lastKeyframeRequestTime <= askAt[ref(r)]

// the packet's payload bytes
pure pLen(p) = len(p.Payload) - vHdr(p.Payload)
pure pByte(p, i) = p.Payload[vHdr(p.Payload) + i]
// data is the payload of p, which starts a frame
pure isNew(p, data) = vOK(p.Payload) && vStart(p.Payload) && len(data) == pLen(p) && (forall i int :: 0 <= i && i < len(data) ==> data[i] == old(pByte(p, i)))
// data is the frame in progress followed by the payload of p, the next packet, which does not start a frame
pure isNext(r, p, data) = vOK(p.Payload) && !vStart(p.Payload) && old(r.currentFrame != nil && p.SequenceNumber == r.expectedNextSeq) && len(data) == old(len(r.currentFrame)) + pLen(p)
  && (forall i int :: 0 <= i && i < old(len(r.currentFrame)) ==> data[i] == old(r.currentFrame[i]))
  && (forall i int :: 0 <= i && i < pLen(p) ==> data[old(len(r.currentFrame)) + i] == old(pByte(p, i)))
pure ignored(r, p) = r.closed || !r.hasVideo || len(p.Payload) == 0

func recorder.WebmRecorder.PushVideo(r, p)
  props C11 C12 C13 C14 C15 C16 C21 C25
  aborts
  safety {C12}
  requires rInv(r) && p != nil
  requires r.videoTimestamp <= 4611686018427387904 && len(p.Payload) < 65536 && len(r.currentFrame) <= 268435456
  modifies r.*, r.currentFrameInfo.*, all(recorder.sampleQueue.builder), all(recorder.sampleQueue.restarted), all(recorder.sampleQueue.lastTimestamp), all(recorder.sampleQueue.hasTimestamp)
  modifies wrote, lastTs, wn, wkf, werr, wdata, wlen, wsum, pending, lastDur, lastData, lastLen, irec, asks, opens, damaged[ref(r)], askAt[ref(r)], fb, flen, fpos, fioerr, r.ivfWriter.mu, all(recorder.IVFWriter.frameCount)
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C13} whole-frame: r.useCustomSampler ==> w == r.videoWriter && p.Marker && (isNew(p, data) || isNext(r, p, data))
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C13} one-frame: r.useCustomSampler ==> wn == old(wn)
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C14} starts-with-keyframe: r.useCustomSampler && (wrote[ref(w)] == 0 || damaged[ref(r)]) ==> kf
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C14} keyframe-flag: r.useCustomSampler ==> (kf <==> data[0] & 1 == 0)
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C15} in-order: w == r.videoWriter && ts == r.videoTimestamp / 1000000 && (wrote[ref(w)] > 0 ==> ts >= lastTs[ref(w)])
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C16} still-open: !r.closed
  oncall os.OpenFile(name, flag, perm) {C16} still-open: !r.closed
  oncall os.OpenFile(name, flag, perm) {C25} not-again: !recorded(r)
  oncall os.OpenFile(name, flag, perm) {C11} the-file: name == r.file && perm == r.fileMode
  inv b-queues: r.ctx != nil && qOK(r.videoBuilder) && qOK(r.audioBuilder)
  inv b-ivf: r.ivfWriter != nil ==> r.videoWriter != nil && ivfOK(r.ivfWriter)
  inv b-tracks: r.audioWriter != nil && r.videoWriter != nil ==> ref(r.audioWriter) != ref(r.videoWriter)
  inv b-counts: (r.videoWriter != nil ==> wrote[ref(r.videoWriter)] >= 0) && (r.audioWriter != nil ==> wrote[ref(r.audioWriter)] >= 0)
  inv b-valid: validOK(r)
  inv b-frame: frameOK(r)
  inv b-positions: r.videoTimestamp >= old(r.videoTimestamp) && r.audioTimestamp == old(r.audioTimestamp)
  inv b-video-time: r.videoWriter != nil && wrote[ref(r.videoWriter)] > 0 ==> lastTs[ref(r.videoWriter)] == r.videoTimestamp / 1000000
  inv b-audio-time: r.audioWriter != nil && wrote[ref(r.audioWriter)] > 0 ==> lastTs[ref(r.audioWriter)] == r.audioTimestamp / 1000000
  inv b-open: !r.closed && r.hasVideo && !r.useCustomSampler
  inv ($s *media.Sample) {alt} held-sample: (pending <==> $s != nil) && ($s != nil ==> fresh($s) && $s.Duration >= 0 && $s.Duration == lastDur && array($s.Data) == lastData && len($s.Data) == lastLen)
  inv b-sum: r.videoTimestamp - old(r.videoTimestamp) == wsum - old(wsum)
  inv b-nothing-written: wn >= old(wn) && (wn == old(wn) ==> r.videoTimestamp == old(r.videoTimestamp))
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C13} sample: !r.useCustomSampler ==> w == r.videoWriter && pending && array(data) == lastData && len(data) == lastLen
  oncall recorder.IVFWriter.WriteFrame(w, d, ts, kf) {C21} same-frame: wn > old(wn) && array(d) == wdata && len(d) == wlen && (r.useCustomSampler ==> ts == p.Timestamp)
  ensures {C21} every-frame: r.useCustomSampler && r.writeIVFCopy && old(r.ivfWriter) != nil && r.ivfWriter != nil ==> irec - old(irec) == wn - old(wn)
  ensures {C15} durations: !r.useCustomSampler ==> r.videoTimestamp - old(r.videoTimestamp) == wsum - old(wsum)
  sets damaged[ref(r)] = (wn > old(wn) && wkf && !werr) ? false : old(damaged[ref(r)]) || lostFrame(r, p) || missed(r, p)
  sets askAt[ref(r)] = (asks > old(asks) || resync(r, p)) && clock > old(askAt[ref(r)]) ? clock : old(askAt[ref(r)])
  ensures {C11} kept: r.file == old(r.file) && r.fileMode == old(r.fileMode)
  ensures inv-basic: !held(r.m) && r.ctx != nil && qOK(r.videoBuilder) && qOK(r.audioBuilder)
  ensures inv-ivf: r.ivfWriter != nil ==> r.videoWriter != nil && ivfOK(r.ivfWriter)
  ensures inv-tracks: r.audioWriter != nil && r.videoWriter != nil ==> ref(r.audioWriter) != ref(r.videoWriter)
  ensures inv-frame: frameOK(r)
  ensures inv-asked: askOK(r)
  ensures inv-time: tsOK(r)
  ensures inv-gate1: r.useCustomSampler && r.videoWriter == nil ==> !r.hasKeyFrame || r.currentFrame != nil && r.currentFrameInfo.isKeyFrame
  ensures inv-gate2: r.useCustomSampler && damaged[ref(r)] ==> !r.hasKeyFrame || r.currentFrame != nil && r.currentFrameInfo.isKeyFrame
  ensures inv-valid: validOK(r)
  ensures inv-gate3: r.useCustomSampler && r.videoWriter != nil && wrote[ref(r.videoWriter)] == 0 ==> !r.hasKeyFrame || r.currentFrame != nil && r.currentFrameInfo.isKeyFrame
  ensures {C13} in-progress: r.useCustomSampler && !old(ignored(r, p)) && r.currentFrame != nil ==> !p.Marker && r.expectedNextSeq == wrap16(p.SequenceNumber + 1) && (isNew(p, r.currentFrame) || isNext(r, p, r.currentFrame))
  ensures {C13} written-once: wn > old(wn) && r.useCustomSampler ==> wn == old(wn) + 1 && r.currentFrame == nil
  ensures {C12} ignored: old(ignored(r, p)) ==> wn == old(wn) && opens == old(opens) && r.currentFrame == old(r.currentFrame) && r.expectedNextSeq == old(r.expectedNextSeq)
  ensures {C14} asks: r.useCustomSampler && lostFrame(r, p) ==> askedNow(r)
  ensures {C14} missing-frames: r.useCustomSampler && missed(r, p) ==> wn == old(wn) && r.currentFrame == nil && !r.hasKeyFrame && askedNow(r)
  ensures {C15} forward: r.videoTimestamp >= old(r.videoTimestamp) && r.audioTimestamp == old(r.audioTimestamp)
  ensures {C15} only-written: wn == old(wn) ==> r.videoTimestamp == old(r.videoTimestamp)
  ensures {C15} clock: r.useCustomSampler && wn > old(wn) ==> r.videoTimestamp - old(r.videoTimestamp) == wrap32(p.Timestamp - (old(r.seenKeyFrame) ? old(r.packetTimestamp) : p.Timestamp)) * 1000000000 / 90000 && r.packetTimestamp == p.Timestamp
  ensures {C15} clock-kept: r.useCustomSampler && wn == old(wn) ==> r.packetTimestamp == (old(r.seenKeyFrame) || !r.seenKeyFrame ? old(r.packetTimestamp) : p.Timestamp)
  ensures {C16} closed: old(r.closed) ==> r.closed && wn == old(wn) && opens == old(opens) && r.videoTimestamp == old(r.videoTimestamp)
  cover writes: r.useCustomSampler && wn > old(wn)
  cover misses: r.useCustomSampler && missed(r, p)
  cover loses: r.useCustomSampler && lostFrame(r, p)

// p starts a frame whose PictureID says that frames before it are missing, and is no keyframe
pure missed(r, p) = !old(ignored(r, p)) && vOK(p.Payload) && vStart(p.Payload) && !vKey(p.Payload) && old(r.lastPictureID) > 0 && pidGap(r, p)
// p is a keyframe that was not expected
pure resync(r, p) = r.useCustomSampler && !old(ignored(r, p)) && vKey(p.Payload) && old(r.lastPictureID) > 0 && (vPid(p.Payload) + 32768 - old(r.lastPictureID) % 32768) % 32768 > 1
pure pidGap(r, p) = (vPid(p.Payload) + 32768 - old(r.lastPictureID) % 32768) % 32768 > 1 && (vPid(p.Payload) + 32768 - old(r.lastPictureID) % 32768) % 32768 < 16384
// a frame that could have been written was not: the frame in progress, or the one that p completes
pure lostFrame(r, p) = !old(ignored(r, p)) && (
     old(r.currentFrame != nil) && !(r.currentFrame != nil && !vStart(p.Payload)) && !(wn > old(wn) && !werr && !vStart(p.Payload))
  || vOK(p.Payload) && vStart(p.Payload) && p.Marker && wn == old(wn) && (old(r.hasKeyFrame) || vKey(p.Payload))
  || wn > old(wn) && werr)

func recorder.WebmRecorder.PushAudio(r, p)
  props C11 C12 C13 C15 C16 C25
  aborts
  safety {C12}
  requires rInv(r) && p != nil
  requires r.audioTimestamp <= 4611686018427387904
  modifies r.*, all(recorder.sampleQueue.builder), all(recorder.sampleQueue.restarted), all(recorder.sampleQueue.lastTimestamp), all(recorder.sampleQueue.hasTimestamp)
  modifies wrote, lastTs, wn, wkf, werr, wdata, wlen, wsum, pending, lastDur, lastData, lastLen, opens, fb, flen, fpos, fioerr
  inv b-queues: r.ctx != nil && qOK(r.videoBuilder) && qOK(r.audioBuilder)
  inv b-ivf: r.ivfWriter != nil ==> r.videoWriter != nil && ivfOK(r.ivfWriter)
  inv b-tracks: r.audioWriter != nil && r.videoWriter != nil ==> ref(r.audioWriter) != ref(r.videoWriter)
  inv b-counts: (r.videoWriter != nil ==> wrote[ref(r.videoWriter)] >= 0) && (r.audioWriter != nil ==> wrote[ref(r.audioWriter)] >= 0)
  inv b-gate: gateOK(r)
  inv b-valid: validOK(r)
  inv b-positions: r.audioTimestamp >= old(r.audioTimestamp)
  inv b-video-time: r.videoWriter != nil && wrote[ref(r.videoWriter)] > 0 ==> lastTs[ref(r.videoWriter)] == r.videoTimestamp / 1000000
  inv b-audio-time: r.audioWriter != nil && wrote[ref(r.audioWriter)] > 0 ==> lastTs[ref(r.audioWriter)] == r.audioTimestamp / 1000000
  inv b-sum: r.audioTimestamp - old(r.audioTimestamp) == wsum - old(wsum)
  inv b-nothing-written: wn >= old(wn) && (wn == old(wn) ==> r.audioTimestamp == old(r.audioTimestamp))
  inv b-not-reopened: old(r.audioWriter) != nil || r.hasVideo ==> opens == old(opens)
  inv b-open: r.audioWriter == nil ==> opens == old(opens)
  inv b-once: opens <= old(opens) + 1
  inv ($s *media.Sample) {alt} held-sample: (pending <==> $s != nil) && ($s != nil ==> fresh($s) && $s.Duration >= 0 && $s.Duration == lastDur && array($s.Data) == lastData && len($s.Data) == lastLen)
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C15} in-order: w == r.audioWriter && kf && ts == r.audioTimestamp / 1000000 && (wrote[ref(w)] > 0 ==> ts >= lastTs[ref(w)])
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C13} sample: w == r.audioWriter && pending && array(data) == lastData && len(data) == lastLen
  oncall webm.BlockWriteCloser.Write(w, kf, ts, data) {C16} still-open: !r.closed
  oncall os.OpenFile(name, flag, perm) {C16} still-open: !r.closed
  oncall os.OpenFile(name, flag, perm) {C25} not-again: !recorded(r)
  oncall os.OpenFile(name, flag, perm) {C11} the-file: name == r.file && perm == r.fileMode
  ensures {C15} durations: r.audioTimestamp - old(r.audioTimestamp) == wsum - old(wsum)
  ensures unlocked: !held(r.m)
  ensures {C11} kept: r.file == old(r.file) && r.fileMode == old(r.fileMode)
  ensures inv-basic: !held(r.m) && r.ctx != nil && qOK(r.videoBuilder) && qOK(r.audioBuilder)
  ensures inv-ivf: r.ivfWriter != nil ==> r.videoWriter != nil && ivfOK(r.ivfWriter)
  ensures inv-tracks: r.audioWriter != nil && r.videoWriter != nil ==> ref(r.audioWriter) != ref(r.videoWriter)
  ensures inv-frame: frameOK(r)
  ensures inv-time: tsOK(r)
  ensures inv-asked: askOK(r)
  ensures inv-gate: gateOK(r)
  ensures inv-valid: validOK(r)
  ensures {C12} ignored: old(r.closed || !r.hasAudio || len(p.Payload) == 0) ==> wn == old(wn) && opens == old(opens)
  ensures {C15} forward: r.audioTimestamp >= old(r.audioTimestamp) && r.videoTimestamp == old(r.videoTimestamp)
  ensures {C15} only-written: wn == old(wn) ==> r.audioTimestamp == old(r.audioTimestamp)
  ensures {C16} closed: old(r.closed) ==> r.closed && wn == old(wn) && opens == old(opens) && r.audioTimestamp == old(r.audioTimestamp)

func recorder.WebmRecorder.NotifySkippedPacket(r, seq)
  props C11 C12 C13 C14 C15 C16 C25
  safety {C12}
  requires rInv(r)
  modifies r.*, asks, damaged[ref(r)], askAt[ref(r)]
  sets askAt[ref(r)] = asks > old(asks) && clock > old(askAt[ref(r)]) ? clock : old(askAt[ref(r)])
  sets damaged[ref(r)] = old(damaged[ref(r)]) || old(r.currentFrame != nil) && r.currentFrame == nil
  ensures {C11} kept: r.file == old(r.file) && r.fileMode == old(r.fileMode)
  ensures inv: rInv(r)
  ensures {C13} kept-or-dropped: r.currentFrame == nil || r.currentFrame == old(r.currentFrame) && r.expectedNextSeq == old(r.expectedNextSeq)
  ensures {C13} interrupted: old(r.currentFrame != nil) && wrap16(seq - old(r.currentFrameInfo.startSequence)) <= wrap16(old(r.lastProcessedSeq) - old(r.currentFrameInfo.startSequence)) ==> r.currentFrame == nil
  ensures {C14} asks: old(r.currentFrame != nil) && r.currentFrame == nil ==> askedNow(r)
  ensures {C15} positions: r.videoTimestamp == old(r.videoTimestamp) && r.audioTimestamp == old(r.audioTimestamp) && r.closed == old(r.closed)
  cover dropped: old(r.currentFrame != nil) && r.currentFrame == nil

func recorder.WebmRecorder.Close(r) (ts)
  props C11 C12 C13 C14 C15 C16 C25
  aborts
  safety {C12}
  requires rInv(r)
  modifies r.*, wclosed, fb, flen, fpos, fioerr, fcloses, r.ivfWriter.*
  ensures {C11} kept: r.file == old(r.file) && r.fileMode == old(r.fileMode)
  ensures inv: rInv(r)
  ensures closed: r.closed
  ensures position: ts == old(r.videoTimestamp) && r.videoTimestamp == old(r.videoTimestamp) && r.audioTimestamp == old(r.audioTimestamp)
  ensures video: r.videoWriter != nil ==> wclosed[ref(r.videoWriter)] == old(wclosed[ref(r.videoWriter)]) + (old(r.closed) ? 0 : 1)
  ensures audio: r.audioWriter != nil ==> wclosed[ref(r.audioWriter)] == old(wclosed[ref(r.audioWriter)]) + (old(r.closed) ? 0 : 1)
  ensures same-writers: r.videoWriter == old(r.videoWriter) && r.audioWriter == old(r.audioWriter)
  ensures ivf: fcloses == old(fcloses) + (old(!r.closed && r.ivfWriter != nil && r.ivfWriter.enabled && !r.ivfWriter.closed) ? 1 : 0)

func recorder.WebmRecorder.SetKeyframeRequester(r, k)
  props C12 C14 C16 C25
  requires rInv(r)
  modifies r.m, r.keyframeRequester, r.lastKeyframeRequestTime
  ensures inv: rInv(r)
  ensures set: r.keyframeRequester == k
func recorder.WebmRecorder.WithContext(r, ctx)
  props C12 C14 C15 C16 C25
  requires r != nil && ctx != nil
  modifies r.ctx
  ensures set: r.ctx == ctx
func recorder.WebmRecorder.SetHasAudio(r, on)
  props C12 C14 C15 C16 C25
  requires r != nil
  modifies r.hasAudio
  ensures set: r.hasAudio == on
func recorder.WebmRecorder.SetHasVideo(r, on)
  props C12 C14 C15 C16 C25
  requires r != nil
  modifies r.hasVideo
  ensures set: r.hasVideo == on
func recorder.WebmRecorder.VideoTimestamp(r) (ts)
  props C15 C16
  requires r != nil
  modifies nothing
  ensures position: ts == r.videoTimestamp
func recorder.WebmRecorder.AudioTimestamp(r) (ts)
  props C15 C16
  requires r != nil
  modifies nothing
  ensures position: ts == r.audioTimestamp
func recorder.WebmRecorder.GetFilePath(r) (f)
  props C11
  requires r != nil
  modifies nothing
  ensures file: f == r.file

func recorder.NewWebmRecorder(file, mode, vq, aq, custom, ivf) (r)
  props C12 C14 C15 C16 C11
  modifies nothing
  ensures inv: fresh(r) && rInv(r) && !r.closed && r.videoWriter == nil && r.audioWriter == nil && r.currentFrame == nil && !r.hasKeyFrame && r.ivfWriter == nil
  ensures {C15} start: r.videoTimestamp == 0 && r.audioTimestamp == 0
  ensures {C11} file: r.file == file && r.fileMode == mode
