# Contracts assumed for the standard library: files.
# fileData[f][i] is the byte at offset i of the file open as f, fileLen[f] its size.
ghost fileData [int][int]int
ghost fileLen [int]int
# ioErr: some input/output call has failed so far
ghost ioErr bool
ghost filePos [int]int

extern (*os.File).WriteAt ! f b off -> n err
  requires[nonneg] off >= 0
  ensures err == nil ==> n == len(b)
  ensures err == nil ==> ioErr == old(ioErr)
  ensures err != nil ==> ioErr
  ensures err == nil ==> forall i: int :: {fileData[f][i]} fileData[f][i] == (if off <= i && i < off + len(b) then b[i-off] else old(fileData[f][i]))
  ensures err == nil ==> fileLen[f] == (if off + len(b) > old(fileLen[f]) then off + len(b) else old(fileLen[f]))
  ensures err != nil ==> fileLen[f] >= old(fileLen[f]) && forall i: int :: {fileData[f][i]} i < off || off + len(b) <= i ==> fileData[f][i] == old(fileData[f][i])
  modifies fileData[f], fileLen[f], ioErr

extern (*os.File).ReadAt ! f b off -> n err
  requires[nonneg] off >= 0
  ensures 0 <= n && n <= len(b)
  ensures err == nil ==> n == len(b) && (n > 0 ==> off + n <= fileLen[f]) && ioErr == old(ioErr)
  ensures err == nil ==> forall i: int :: {elems(b)[i]} off(b) <= i && i < off(b) + len(b) ==> elems(b)[i] == fileData[f][off + i - off(b)]
  ensures err != nil && off + len(b) <= fileLen[f] ==> ioErr
  ensures err != nil && off + len(b) > fileLen[f] ==> ioErr || ioErr == old(ioErr)
  modifies elems(b), ioErr

extern (*os.File).Seek ! f off whence -> pos err
  ensures err != nil ==> ioErr
  ensures err == nil ==> ioErr == old(ioErr)
  ensures err == nil && whence == 0 ==> filePos[f] == off && pos == off
  modifies filePos[f], ioErr

extern fmt.Errorf ! format args -> e
  ensures e != nil
  opt pure
extern errors.New ! s -> e
  ensures e != nil
  opt pure
extern fmt.Sprintf ! format args -> s
  opt pure
