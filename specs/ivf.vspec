// The IVF copy (C21). One file is considered: its bytes, length and the position of the next operation.

ghost fb [int]byte
ghost flen int
ghost fpos int
// an operation on the file failed: what it left behind is unknown
ghost fioerr bool
ghost fcloses int
// records written
ghost irec int

pure le(b, at, n, v) = forall k int :: 0 <= k && k < n ==> b[at + k] == leByte(v, k)
pure leByte(v, k) = k == 0 ? v % 256 : k == 1 ? (v / 256) % 256 : k == 2 ? (v / 65536) % 256 : k == 3 ? (v / 16777216) % 256
  : k == 4 ? (v / 4294967296) % 256 : k == 5 ? (v / 1099511627776) % 256 : k == 6 ? (v / 281474976710656) % 256 : (v / 72057594037927936) % 256
// the bytes of the file from a to b are v, little endian
pure fle(at, n, v) = forall k int :: 0 <= k && k < n ==> fb[at + k] == leByte(v, k)

extern os.Create(name) (f, err)
  modifies flen, fpos, fioerr
  sets flen = (err == nil ? 0 : old(flen))
  sets fpos = (err == nil ? 0 : old(fpos))
  sets fioerr = (err == nil ? false : old(fioerr))
  ensures err == nil ==> f != nil && fresh(f)
extern os.File.Write(f, b) (n, err)
  modifies fb, flen, fpos, fioerr
  sets fpos = old(fpos) + n
  sets flen = (old(fpos) + n > old(flen) ? old(fpos) + n : old(flen))
  sets fioerr = old(fioerr) || err != nil
  ensures 0 <= n && n <= len(b) && (err == nil ==> n == len(b))
  ensures forall i int :: fb[i] == (old(fpos) <= i && i < old(fpos) + n ? b[i - old(fpos)] : old(fb[i]))
extern os.File.Seek(f, off, whence) (r, err)
  modifies fpos, fioerr
  sets fpos = (err == nil ? r : old(fpos))
  sets fioerr = old(fioerr) || err != nil
  ensures err == nil ==> r == off + (whence == 0 ? 0 : whence == 1 ? old(fpos) : flen)
extern os.File.Close(f) (err)
  modifies fcloses
  sets fcloses = old(fcloses) + 1
extern binary.Write(w, order, data) (err)
  modifies fb, flen, fpos, fioerr
  sets fioerr = old(fioerr) || err != nil
  ensures err == nil && istype(data, uint32) ==> fpos == old(fpos) + 4 && flen == (fpos > old(flen) ? fpos : old(flen))
  ensures err == nil && istype(data, uint32) ==> forall i int :: fb[i] == (old(fpos) <= i && i < fpos ? leByte(as(data, uint32), i - old(fpos)) : old(fb[i]))

pure ivfOK(w) = w != nil && (w.enabled ==> w.file != nil) && !held(w.mu) && (w.enabled && !w.closed && !fioerr ==> flen >= 32 && fpos == flen)

func recorder.NewIVFWriter(basePath) (w, err)
  props C21
  modifies fb, flen, fpos, fioerr
  ensures inv: err == nil ==> fresh(w) && ivfOK(w) && w.frameCount == 0 && !w.closed
  ensures enabled: err == nil && basePath != "" ==> w.enabled
  ensures header-size: err == nil && w.enabled && !fioerr ==> flen == 32
  ensures signature: err == nil && w.enabled && !fioerr ==> fb[0] == 68 && fb[1] == 75 && fb[2] == 73 && fb[3] == 70 && fb[4] == 0 && fb[5] == 0 && fb[6] == 32 && fb[7] == 0 && fb[8] == 86 && fb[9] == 80 && fb[10] == 56 && fb[11] == 48
  ensures timebase: err == nil && w.enabled && !fioerr ==> fle(16, 4, 90000) && fle(20, 4, 1) && fle(24, 4, 0)
  cover made: err == nil && w.enabled && !fioerr

func recorder.IVFWriter.UpdateDimensions(w, width, height) (err)
  props C21
  requires ivfOK(w)
  modifies fb, fpos, fioerr, flen, w.mu
  ensures inv: ivfOK(w)
  ensures only-dimensions: !fioerr && !w.closed && flen >= 32 ==> flen == old(flen) && (forall i int :: i < 12 || i >= 16 ==> fb[i] == old(fb[i]))
  ensures dimensions: w.enabled && !w.closed && !fioerr ==> fle(12, 2, width) && fle(14, 2, height)
  cover ok: !fioerr && err == nil

func recorder.IVFWriter.WriteFrame(w, frameData, timestamp, isKeyFrame) (err)
  props C21
  requires ivfOK(w)
  modifies fb, fpos, fioerr, flen, w.mu, w.frameCount, irec
  sets irec = old(irec) + 1
  ensures inv: ivfOK(w)
  ensures nothing-when-closed: !w.enabled || w.closed ==> flen == old(flen) && w.frameCount == old(w.frameCount) && (forall i int :: fb[i] == old(fb[i]))
  ensures counted: err == nil && w.enabled && !w.closed ==> w.frameCount == (old(w.frameCount) + 1) % 18446744073709551616
  ensures earlier-kept: !fioerr && w.enabled && !w.closed ==> (forall i int :: i < 24 || 28 <= i && i < old(flen) ==> fb[i] == old(fb[i]))
  ensures one-record: !fioerr && w.enabled && !w.closed ==> flen == old(flen) + 12 + len(frameData)
  ensures record-header: !fioerr && w.enabled && !w.closed ==> (len(frameData) < 4294967296 ==> fle(old(flen), 4, len(frameData))) && fle(old(flen) + 4, 8, timestamp)
  ensures record-data: !fioerr && w.enabled && !w.closed ==> (forall i int :: 0 <= i && i < len(frameData) ==> fb[old(flen) + 12 + i] == frameData[i])
  cover ok: !fioerr && w.enabled && !w.closed

func recorder.IVFWriter.Close(w) (err)
  props C21 C16
  requires ivfOK(w)
  modifies fb, fpos, fioerr, flen, fcloses, w.mu, w.closed
  ensures inv: ivfOK(w)
  ensures {C21} only-count: !fioerr ==> flen == old(flen) && (forall i int :: i < 24 || i >= 28 ==> fb[i] == old(fb[i]))
  ensures {C21} count: !fioerr && w.enabled && !old(w.closed) ==> fle(24, 4, wrap32(w.frameCount))
  ensures {C16} once: fcloses == old(fcloses) + (w.enabled && !old(w.closed) ? 1 : 0)
  ensures {C16} closed: w.enabled ==> w.closed
