# Fixed size structures of the index file.
logic be8(int, int, int, int, int, int, int, int) int
axiom be8-range{be8} forall a, b, c, d, e, f, g, h: int :: {be8(a,b,c,d,e,f,g,h)} 0 <= be8(a,b,c,d,e,f,g,h) && be8(a,b,c,d,e,f,g,h) <= 18446744073709551615

macro beBytes(b: []byte, o: int): int = be8(b[o], b[o+1], b[o+2], b[o+3], b[o+4], b[o+5], b[o+6], b[o+7])
macro beStream(s: *index/wildcard.Stream, o: int): int = be8(streamByte(s,o), streamByte(s,o+1), streamByte(s,o+2), streamByte(s,o+3), streamByte(s,o+4), streamByte(s,o+5), streamByte(s,o+6), streamByte(s,o+7))

extern (encoding/binary.bigEndian).PutUint64 ! _ b v
  requires[room] len(b) >= 8
  ensures beBytes(b, 0) == v
  ensures forall j: int :: {elems(b)[j]} j < off(b) || j >= off(b) + 8 ==> elems(b)[j] == old(elems(b)[j])
  modifies elems(b)

extern (encoding/binary.bigEndian).Uint64 ! _ b -> r
  requires[room] len(b) >= 8
  ensures r == beBytes(b, 0)
  opt pure

func (*index/wildcard.TreeNode).Serialize ! n -> r
  prop C02
  ensures[size] len(r) == 56 && fresh(r) && off(r) == 0
  ensures[fields] beBytes(r, 0) == u64(n.valueOffset) && beBytes(r, 8) == u64(n.valueLength) && beBytes(r, 16) == u64(n.nextSiblingOffset) && beBytes(r, 24) == u64(n.firstChildOffset) && beBytes(r, 32) == u64(n.lastChildOffset) && beBytes(r, 40) == u64(n.firstPositionOffset) && beBytes(r, 48) == u64(n.lastPositionOffset)
  modifies nothing

func (*index/wildcard.TreeNode).Unserialize ! n data
  prop C02
  requires[size] len(data) >= 56
  ensures[fields] n.valueOffset == s64(beBytes(data, 0)) && n.valueLength == s64(beBytes(data, 8)) && n.nextSiblingOffset == s64(beBytes(data, 16)) && n.firstChildOffset == s64(beBytes(data, 24)) && n.lastChildOffset == s64(beBytes(data, 32)) && n.firstPositionOffset == s64(beBytes(data, 40)) && n.lastPositionOffset == s64(beBytes(data, 48))
  modifies n.valueOffset, n.valueLength, n.nextSiblingOffset, n.firstChildOffset, n.lastChildOffset, n.firstPositionOffset, n.lastPositionOffset

macro nodeAt(s: *index/wildcard.Stream, o: int, vo: int, vl: int, ns: int, fc: int, lc: int, fp: int, lp: int): bool = beStream(s, o) == u64(vo) && beStream(s, o+8) == u64(vl) && beStream(s, o+16) == u64(ns) && beStream(s, o+24) == u64(fc) && beStream(s, o+32) == u64(lc) && beStream(s, o+40) == u64(fp) && beStream(s, o+48) == u64(lp)

macro nodeSaved(n: *index/wildcard.TreeNode): bool = nodeAt(n.stream, n.offset, n.valueOffset, n.valueLength, n.nextSiblingOffset, n.firstChildOffset, n.lastChildOffset, n.firstPositionOffset, n.lastPositionOffset)

func index/wildcard.NewEmptyTreeNode ! s -> n err
  prop C02
  requires[invariant] streamInv(s)
  ensures[invariant] err == nil ==> streamInv(s)
  ensures[placed] err == nil ==> n != nil && fresh(n) && n.stream == s && n.offset == old(s.streamSize) && s.streamSize == old(s.streamSize) + 56
  ensures[others-unchanged] err == nil ==> forall i: int :: 0 <= i && i < old(s.streamSize) ==> streamByte(s, i) == old(streamByte(s, i))
  ensures[fields] err == nil ==> n.valueOffset == 0 && n.valueLength == 0 && n.nextSiblingOffset == 0 && n.firstChildOffset == 0 && n.lastChildOffset == 0 && n.firstPositionOffset == 0 && n.lastPositionOffset == 0
  ensures[buffer] err == nil ==> base(s.buffer) == old(base(s.buffer)) || fresh(s.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies s.buffer, s.bufferOffset, s.streamSize, elems(s.buffer), fileData[s.stream], fileLen[s.stream], ioErr

func index/wildcard.GetTreeNode ! s offset -> n err
  prop C02
  requires[invariant] streamInv(s)
  requires[range] 0 <= offset && offset <= s.streamSize
  ensures[zero-is-none] offset == 0 ==> n == nil && err == nil
  ensures[fields] err == nil && offset != 0 ==> n != nil && fresh(n) && n.stream == s && n.offset == offset && offset + 56 <= s.streamSize && n.valueOffset == s64(beStream(s, offset)) && n.valueLength == s64(beStream(s, offset+8)) && n.nextSiblingOffset == s64(beStream(s, offset+16)) && n.firstChildOffset == s64(beStream(s, offset+24)) && n.lastChildOffset == s64(beStream(s, offset+32)) && n.firstPositionOffset == s64(beStream(s, offset+40)) && n.lastPositionOffset == s64(beStream(s, offset+48))
  ensures[available] err != nil && offset + 56 <= s.streamSize ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies ioErr

func (*index/wildcard.TreeNode).Save ! n -> err
  prop C02
  requires[invariant] streamInv(n.stream)
  requires[range] 0 <= n.offset && n.offset + 56 <= n.stream.streamSize
  ensures[invariant] err == nil ==> streamInv(n.stream) && n.stream.streamSize == old(n.stream.streamSize)
  ensures[saved] err == nil ==> nodeSaved(n)
  ensures[others-unchanged] err == nil ==> forall i: int :: 0 <= i && i < n.stream.streamSize && (i < n.offset || i >= n.offset + 56) ==> streamByte(n.stream, i) == old(streamByte(n.stream, i))
  ensures[buffer] err == nil ==> base(n.stream.buffer) == old(base(n.stream.buffer)) || fresh(n.stream.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies n.stream.buffer, n.stream.bufferOffset, n.stream.streamSize, elems(n.stream.buffer), fileData[n.stream.stream], fileLen[n.stream.stream], ioErr

# reading a saved node back gives the same field values
lemma round-trip-u64 forall v: int :: 0 - 9223372036854775808 <= v && v <= 9223372036854775807 ==> s64(u64(v)) == v && 0 <= u64(v)

func (*index/wildcard.PositionLinkedList).Serialize ! l -> r
  prop C02 C03
  ensures[size] len(r) == 16 && fresh(r) && off(r) == 0
  ensures[fields] beBytes(r, 0) == u64(l.Position) && beBytes(r, 8) == u64(l.nextPositionOffset)
  modifies nothing

func (*index/wildcard.PositionLinkedList).Unserialize ! l data
  prop C02 C03
  requires[size] len(data) >= 16
  ensures[fields] l.Position == s64(beBytes(data, 0)) && l.nextPositionOffset == s64(beBytes(data, 8))
  modifies l.Position, l.nextPositionOffset

func (*index/wildcard.PositionLinkedList).Save ! l -> err
  prop C02 C03
  requires[invariant] streamInv(l.stream)
  requires[range] l.offset == 0 && l.stream.streamSize > 0 || 0 < l.offset && l.offset + 16 <= l.stream.streamSize
  ensures[invariant] err == nil ==> streamInv(l.stream)
  ensures[placed] err == nil ==> (if old(l.offset) == 0 then l.offset == old(l.stream.streamSize) && l.stream.streamSize == l.offset + 16 else l.offset == old(l.offset) && l.stream.streamSize == old(l.stream.streamSize))
  ensures[saved] err == nil ==> beStream(l.stream, l.offset) == u64(l.Position) && beStream(l.stream, l.offset + 8) == u64(l.nextPositionOffset)
  ensures[others-unchanged] err == nil ==> forall i: int :: 0 <= i && i < l.stream.streamSize && (i < l.offset || i >= l.offset + 16) ==> streamByte(l.stream, i) == old(streamByte(l.stream, i))
  ensures[buffer] err == nil ==> base(l.stream.buffer) == old(base(l.stream.buffer)) || fresh(l.stream.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies l.offset, l.stream.buffer, l.stream.bufferOffset, l.stream.streamSize, elems(l.stream.buffer), fileData[l.stream.stream], fileLen[l.stream.stream], ioErr

func index/wildcard.NewPositionLinkedList ! s position -> l err
  prop C02 C03
  requires[invariant] streamInv(s) && s.streamSize > 0
  ensures[invariant] err == nil ==> streamInv(s)
  ensures[placed] err == nil ==> l != nil && fresh(l) && l.stream == s && l.offset == old(s.streamSize) && s.streamSize == old(s.streamSize) + 16 && l.Position == position && l.nextPositionOffset == 0
  ensures[saved] err == nil ==> beStream(s, l.offset) == u64(position) && beStream(s, l.offset + 8) == 0
  ensures[others-unchanged] err == nil ==> forall i: int :: 0 <= i && i < old(s.streamSize) ==> streamByte(s, i) == old(streamByte(s, i))
  ensures[buffer] err == nil ==> base(s.buffer) == old(base(s.buffer)) || fresh(s.buffer)
  ensures[errors] err != nil ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies s.buffer, s.bufferOffset, s.streamSize, elems(s.buffer), fileData[s.stream], fileLen[s.stream], ioErr

func index/wildcard.GetPositionLinkedList ! s offset -> l err
  prop C02 C03
  requires[invariant] streamInv(s)
  requires[range] 0 <= offset && offset <= s.streamSize
  ensures[zero-is-none] offset == 0 ==> l == nil && err == nil
  ensures[fields] err == nil && offset != 0 ==> l != nil && fresh(l) && l.stream == s && l.offset == offset && offset + 16 <= s.streamSize && l.Position == s64(beStream(s, offset)) && l.nextPositionOffset == s64(beStream(s, offset + 8))
  ensures[available] err != nil && offset + 16 <= s.streamSize ==> ioErr
  ensures[errors2] err == nil ==> ioErr == old(ioErr)
  modifies ioErr

# --- metadata block
logic be2(int, int) int
ghost bufData [int][int]int
ghost bufLen [int]int
logic timeUnix(time.Time) int

# the only JSON document a buffer holds, or the bytes of a slice denote
ghost bufDoc [int]any
logic docOf(int) any
extern alloc:bytes.Buffer ! b
  ensures bufLen[b] == 0
macro beBuf(b: int, o: int): int = be8(bufData[b][o], bufData[b][o+1], bufData[b][o+2], bufData[b][o+3], bufData[b][o+4], bufData[b][o+5], bufData[b][o+6], bufData[b][o+7])
macro beFile(f: int, o: int): int = be8(fileData[f][o], fileData[f][o+1], fileData[f][o+2], fileData[f][o+3], fileData[f][o+4], fileData[f][o+5], fileData[f][o+6], fileData[f][o+7])
macro bufKept(b: int, n: int): bool = bufLen[b] == old(bufLen[b]) + n && forall i: int :: {bufData[b][i]} i < old(bufLen[b]) ==> bufData[b][i] == old(bufData[b][i])

extern encoding/binary.Write<[]byte> ! w order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian") && is(w, "*bytes.Buffer")
  ensures err == nil ==> bufKept(refof(w), len(data)) && forall i: int :: {bufData[refof(w)][i]} old(bufLen[refof(w)]) <= i && i < bufLen[refof(w)] ==> bufData[refof(w)][i] == data[i - old(bufLen[refof(w)])]
  modifies bufData[refof(w)], bufLen[refof(w)]
extern encoding/binary.Write<uint16> ! w order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian") && is(w, "*bytes.Buffer")
  ensures err == nil ==> bufKept(refof(w), 2) && be2(bufData[refof(w)][old(bufLen[refof(w)])], bufData[refof(w)][old(bufLen[refof(w)]) + 1]) == data
  modifies bufData[refof(w)], bufLen[refof(w)]
extern encoding/binary.Write<int64> ! w order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian") && is(w, "*bytes.Buffer")
  ensures err == nil ==> bufKept(refof(w), 8) && beBuf(refof(w), old(bufLen[refof(w)])) == u64(data)
  modifies bufData[refof(w)], bufLen[refof(w)]
extern encoding/binary.Write<index/wildcard.TreeNodeOffset> ! w order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian") && is(w, "*bytes.Buffer")
  ensures err == nil ==> bufKept(refof(w), 8) && beBuf(refof(w), old(bufLen[refof(w)])) == u64(data)
  modifies bufData[refof(w)], bufLen[refof(w)]
extern encoding/binary.Write<bool> ! w order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian") && is(w, "*bytes.Buffer")
  ensures err == nil ==> bufKept(refof(w), 1) && bufData[refof(w)][old(bufLen[refof(w)])] == (if data then 1 else 0)
  modifies bufData[refof(w)], bufLen[refof(w)]
extern (*bytes.Buffer).Bytes ! b -> r
  ensures r != nil ==> docOf(base(r)) == bufDoc[b]
  ensures bufLen[b] > 0 ==> r != nil
  ensures len(r) == bufLen[b] && (r == nil || fresh(r)) && forall i: int :: {elems(r)[i]} off(r) <= i && i < off(r) + len(r) ==> elems(r)[i] == bufData[b][i - off(r)]
  opt pure
extern (time.Time).Unix ! t -> s
  ensures s == timeUnix(t)
  opt pure
extern time.Unix ! s ns -> t
  ensures ns == 0 ==> timeUnix(t) == s
  opt pure

# reading: r is the index file, read from its current position
extern encoding/binary.Read<*[]byte> ! r order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian")
  ensures err == nil ==> filePos[refof(r)] == old(filePos[refof(r)]) + len(*data) && filePos[refof(r)] <= fileLen[refof(r)] && forall i: int :: {elems(*data)[i]} off(*data) <= i && i < off(*data) + len(*data) ==> elems(*data)[i] == fileData[refof(r)][old(filePos[refof(r)]) + i - off(*data)]
  modifies elems(*data), filePos[refof(r)], ioErr
extern encoding/binary.Read<*uint16> ! r order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian")
  ensures err == nil ==> filePos[refof(r)] == old(filePos[refof(r)]) + 2 && filePos[refof(r)] <= fileLen[refof(r)] && *data == be2(fileData[refof(r)][old(filePos[refof(r)])], fileData[refof(r)][old(filePos[refof(r)]) + 1])
  modifies *data, filePos[refof(r)], ioErr
extern encoding/binary.Read<*int64> ! r order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian")
  ensures err == nil ==> filePos[refof(r)] == old(filePos[refof(r)]) + 8 && filePos[refof(r)] <= fileLen[refof(r)] && *data == s64(beFile(refof(r), old(filePos[refof(r)])))
  modifies *data, filePos[refof(r)], ioErr
extern encoding/binary.Read<*index/wildcard.TreeNodeOffset> ! r order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian")
  ensures err == nil ==> filePos[refof(r)] == old(filePos[refof(r)]) + 8 && filePos[refof(r)] <= fileLen[refof(r)] && *data == s64(beFile(refof(r), old(filePos[refof(r)])))
  modifies *data, filePos[refof(r)], ioErr
extern encoding/binary.Read<*bool> ! r order data -> err
  requires[big-endian] is(order, "encoding/binary.bigEndian")
  ensures err == nil ==> filePos[refof(r)] == old(filePos[refof(r)]) + 1 && filePos[refof(r)] <= fileLen[refof(r)] && *data == (fileData[refof(r)][old(filePos[refof(r)])] != 0)
  modifies *data, filePos[refof(r)], ioErr

func (*index/wildcard.Stream).GetReaderFrom ! s offset -> r err
  prop C01 C02 C05
  requires[invariant] streamInv(s)
  requires[range] 0 <= offset && offset <= s.streamSize
  ensures[reader] err == nil ==> r != nil && refof(r) == s.stream && filePos[s.stream] == offset
  ensures[invariant] err == nil ==> streamInv(s) && s.streamSize == old(s.streamSize)
  ensures[content] err == nil ==> forall i: int :: 0 <= i && i < s.streamSize ==> fileData[s.stream][i] == old(streamByte(s, i))
  ensures[errors] err != nil ==> ioErr
  modifies s.buffer, s.bufferOffset, fileData[s.stream], fileLen[s.stream], ioErr, filePos[s.stream]

func (*index/wildcard.Metadata).Serialize ! m -> r err
  prop C02 C05
  requires[magic] len(m.magicBytes) == 19
  ensures[size] err == nil ==> len(r) == 47 + 8 * len(m.rootNodeOffsets)
  ensures[magic] err == nil ==> forall i: int :: {r[i]} 0 <= i && i < 19 ==> r[i] == m.magicBytes[i]
  ensures[version] err == nil ==> be2(r[19], r[20]) == m.version
  ensures[modification-time] err == nil ==> beBytes(r, 21) == u64(timeUnix(m.inputFileModificationTime))
  ensures[input-size] err == nil ==> beBytes(r, 29) == u64(m.inputFileSize)
  ensures[ignore-case] err == nil ==> r[37] == (if m.ignoreCase then 1 else 0)
  ensures[completed] err == nil ==> r[38] == (if m.completed then 1 else 0)
  ensures[root-count] err == nil ==> beBytes(r, 39) == len(m.rootNodeOffsets)
  ensures[roots] err == nil ==> forall k: int :: {m.rootNodeOffsets[k]} 0 <= k && k < len(m.rootNodeOffsets) ==> beBytes(r, 47 + 8*k) == u64(m.rootNodeOffsets[k])
  invariant bufLen[buffer] == 47 + 8 * (rangeindex + 1)
  invariant forall i: int :: {bufData[buffer][i]} 0 <= i && i < 47 ==> bufData[buffer][i] == pre(bufData[buffer][i])
  invariant forall k: int :: {m.rootNodeOffsets[k]} 0 <= k && k <= rangeindex ==> beBuf(buffer, 47 + 8*k) == u64(m.rootNodeOffsets[k])
  modifies nothing
