# The byte store of the wildcard index.
macro streamByte(s: *index/wildcard.Stream, i: int): int = if i < s.bufferOffset then fileData[s.stream][i] else s.buffer[i - s.bufferOffset]
macro streamInv(s: *index/wildcard.Stream): bool = s != nil && s.stream > 0 && 0 <= s.bufferOffset && s.bufferOffset + len(s.buffer) == s.streamSize && fileLen[s.stream] >= s.bufferOffset && s.bufferMaxSize >= 0 && base(s.buffer) > 0

func index/wildcard.NewStream ! f size -> s
  prop C01 C02 C03 C05
  requires[file] f > 0 && size >= 0 && fileLen[f] >= size
  ensures[invariant] streamInv(s) && fresh(s) && fresh(s.buffer)
  ensures[same-content] s.stream == f && s.streamSize == size && forall i: int :: 0 <= i && i < size ==> streamByte(s, i) == fileData[f][i]

func (*index/wildcard.Stream).Flush ! s -> err
  prop C01 C02 C03 C05
  requires[invariant] streamInv(s)
  ensures[invariant] streamInv(s)
  ensures[size] s.streamSize == old(s.streamSize) && s.stream == old(s.stream)
  ensures[same-content] forall i: int :: 0 <= i && i < s.streamSize ==> streamByte(s, i) == old(streamByte(s, i))
  ensures[on-disk] err == nil ==> len(s.buffer) == 0 && s.bufferOffset == s.streamSize
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  ensures[buffer] base(s.buffer) == old(base(s.buffer))
  modifies s.buffer, s.bufferOffset, fileData[s.stream], fileLen[s.stream], ioErr

func (*index/wildcard.Stream).Get ! s offset count -> r err
  prop C01 C02 C03 C05
  requires[invariant] streamInv(s)
  requires[range] offset >= 0 && count >= 0 && offset <= s.streamSize
  ensures[exact-bytes] err == nil ==> len(r) == count && offset + count <= s.streamSize
  ensures[exact-bytes] err == nil ==> forall i: int :: {elems(r)[i]} off(r) <= i && i < off(r) + count ==> elems(r)[i] == old(streamByte(s, offset + i - off(r)))
  ensures[available] err != nil && offset + count <= s.streamSize ==> ioErr
  ensures[errors] err == nil ==> ioErr == old(ioErr)
  ensures[frame] fresh(r) || base(r) == base(s.buffer) || r == nil
  invariant base(bytes) > 0 && fresh(bytes) && off(bytes) == 0
  invariant len(bytes) == pre(len(bytes)) + rangeindex + 1
  invariant forall i: int :: {elems(bytes)[i]} 0 <= i && i < len(bytes) ==> elems(bytes)[i] == old(streamByte(s, offset + i))
  modifies ioErr

func (*index/wildcard.Stream).Add ! s bytes -> offset err
  prop C01 C02 C03 C05
  requires[invariant] streamInv(s) && base(bytes) != base(s.buffer)
  ensures[placed-at-end] err == nil ==> offset == old(s.streamSize) && s.streamSize == old(s.streamSize) + len(bytes)
  ensures[invariant] streamInv(s)
  ensures[kept-on-failure] err != nil ==> s.streamSize >= old(s.streamSize) && forall i: int :: 0 <= i && i < old(s.streamSize) ==> streamByte(s, i) == old(streamByte(s, i))
  ensures[content] err == nil ==> forall i: int :: 0 <= i && i < s.streamSize ==> streamByte(s, i) == (if old(s.streamSize) <= i then old(bytes[i - s.streamSize]) else old(streamByte(s, i)))
  ensures[buffer] base(s.buffer) == old(base(s.buffer)) || fresh(s.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies s.buffer, s.bufferOffset, s.streamSize, elems(s.buffer), fileData[s.stream], fileLen[s.stream], ioErr

func (*index/wildcard.Stream).Replace ! s offset bytes -> err
  prop C01 C02 C03 C05
  requires[invariant] streamInv(s) && base(bytes) != base(s.buffer)
  requires[range] 0 <= offset && offset <= s.streamSize
  ensures[invariant] streamInv(s)
  ensures[kept-on-failure] err != nil ==> s.streamSize >= old(s.streamSize) && forall i: int :: 0 <= i && i < old(s.streamSize) && (i < offset || offset + len(bytes) <= i) ==> streamByte(s, i) == old(streamByte(s, i))
  ensures[size] err == nil ==> s.streamSize == (if offset + len(bytes) > old(s.streamSize) then offset + len(bytes) else old(s.streamSize))
  ensures[content] err == nil ==> forall i: int :: 0 <= i && i < s.streamSize ==> streamByte(s, i) == (if offset <= i && i < offset + len(bytes) then old(bytes[i - offset]) else old(streamByte(s, i)))
  ensures[buffer] base(s.buffer) == old(base(s.buffer)) || fresh(s.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  local k int
  invariant 0 <= k
  invariant forall j: int :: {elems(s.buffer)[j]} elems(s.buffer)[j] == (if off(s.buffer) + start <= j && j < off(s.buffer) + start + k then remainingBytes[j - off(s.buffer) - start] else pre(elems(s.buffer)[j]))
  modifies s.buffer, s.bufferOffset, s.streamSize, elems(s.buffer), fileData[s.stream], fileLen[s.stream], ioErr
