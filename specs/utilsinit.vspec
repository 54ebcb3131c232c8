// Package initialisation of utils: the tables of allowed sizes. (Package variables are zero before it.)

machine pure rlTable() = forall k uint16 :: has(utils.allowedReceiveLogSizes, k) && utils.allowedReceiveLogSizes[k] ==> rlSize(k)
pure sbTable() = forall k uint16 :: has(utils.allowedSendBufferSizes, k) && utils.allowedSendBufferSizes[k] ==> sbSize(k)

func utils.init()
  props C04 C06
  mode bv
  nosafety
  requires utils.allowedReceiveLogSizes == nil && utils.allowedSendBufferSizes == nil
  modifies *
  inv ($i int) receive-sizes: rlTable()
  inv ($i int) send-sizes: sbTable()
  inv ($i int) no-send-sizes: utils.allowedSendBufferSizes == nil
  ensures receive-sizes: rlTable()
  ensures send-sizes: sbTable()

pure sbSize(n) = n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 || n == 256 || n == 512 || n == 1024 || n == 2048 || n == 4096 || n == 8192 || n == 16384 || n == 32768
