# The noop index reads the whole input and keeps the matching records.
macro matches(rec: any, filters: map[string]any): bool = forall p: string :: {keys(filters)[p]} keys(filters)[p] ==> !recErr(rec, p) && deepEq(recVal(rec, p), vals(filters)[p])
# noopSrc(r, k): which record of the input the k-th result is; noopRank(r, j): which result the j-th record is
logic noopSrc(int, int) int
logic noopRank(int, int) int

func (*index.Noop).GetRecordPositions ! n in filters -> r err
  prop C08
  requires[input] in != nil
  ensures[iterator-or-error] err != nil ==> itErr
  ensures[ready] err == nil ==> r != 0 && itPos[r] == 0 && !itBroken[r] && seqLen(r) >= 0
  ensures[only-matching-records] err == nil ==> forall k: int :: {seqAt(r, k)} 0 <= k && k < seqLen(r) ==> 0 <= noopSrc(r, k) && noopSrc(r, k) < inLen(in) && seqAt(r, k) == recPos(inRec(in, noopSrc(r, k))) && matches(inRec(in, noopSrc(r, k)), filters)
  ensures[in-file-order-once] err == nil ==> forall k, m: int :: {noopSrc(r, k), noopSrc(r, m)} 0 <= k && k < m && m < seqLen(r) ==> noopSrc(r, k) < noopSrc(r, m)
  ensures[every-matching-record] err == nil ==> forall j: int :: {inRec(in, j)} 0 <= j && j < inLen(in) && matches(inRec(in, j), filters) ==> 0 <= noopRank(r, j) && noopRank(r, j) < seqLen(r) && noopSrc(r, noopRank(r, j)) == j
  modifies rcPos, rcBroken, itErr, ioErr
  closure self input/record.PositionIterator +inputIterator
    define itPos[self] == 0 && !itBroken[self] && seqLen(self) >= 0 && owns[self][self]
    define forall k: int :: {seqAt(self, k)} {noopSrc(self, k)} 0 <= k && k < seqLen(self) ==> 0 <= noopSrc(self, k) && noopSrc(self, k) < rcLen(inputIterator) && seqAt(self, k) == recPos(rcAt(inputIterator, noopSrc(self, k))) && matches(rcAt(inputIterator, noopSrc(self, k)), filters)
    define forall k, m: int :: {noopSrc(self, k), noopSrc(self, m)} 0 <= k && k < m && m < seqLen(self) ==> noopSrc(self, k) < noopSrc(self, m)
    define forall j: int :: {rcAt(inputIterator, j)} {noopRank(self, j)} 0 <= j && j < rcLen(inputIterator) && matches(rcAt(inputIterator, j), filters) ==> 0 <= noopRank(self, j) && noopRank(self, j) < seqLen(self) && noopSrc(self, noopRank(self, j)) == j
    closureinv[input] inputIterator != 0 && end != 0 && seqLen(self) >= 0 && owns[self][self] && forall k: int :: {rcAt(inputIterator, k)} 0 <= k && k < rcLen(inputIterator) ==> rcAt(inputIterator, k) != nil
    closureinv[results] forall k: int :: {seqAt(self, k)} {noopSrc(self, k)} 0 <= k && k < seqLen(self) ==> 0 <= noopSrc(self, k) && noopSrc(self, k) < rcLen(inputIterator) && seqAt(self, k) == recPos(rcAt(inputIterator, noopSrc(self, k))) && matches(rcAt(inputIterator, noopSrc(self, k)), filters)
    closureinv[results] forall k, m: int :: {noopSrc(self, k), noopSrc(self, m)} 0 <= k && k < m && m < seqLen(self) ==> noopSrc(self, k) < noopSrc(self, m)
    closureinv[results] forall j: int :: {rcAt(inputIterator, j)} {noopRank(self, j)} 0 <= j && j < rcLen(inputIterator) && matches(rcAt(inputIterator, j), filters) ==> 0 <= noopRank(self, j) && noopRank(self, j) < seqLen(self) && noopSrc(self, noopRank(self, j)) == j
    closureinv[broken] rcBroken[inputIterator] ==> itBroken[self]
    closureinv[at] itBroken[self] || 0 <= itPos[self] && itPos[self] <= seqLen(self) && 0 <= rcPos[inputIterator] && rcPos[inputIterator] <= rcLen(inputIterator)
    closureinv[at-end] itBroken[self] || (closed ==> itPos[self] == seqLen(self))
    closureinv[nothing-skipped] itBroken[self] || itPos[self] >= seqLen(self) || noopSrc(self, itPos[self]) >= rcPos[inputIterator]
    closureinv[nothing-again] itBroken[self] || itPos[self] <= 0 || noopSrc(self, itPos[self] - 1) < rcPos[inputIterator]
  invariant itPos[self] == old(itPos[self]) && (itBroken[self] <==> old(itBroken[self])) && itErr == old(itErr)
  invariant rcBroken[inputIterator] ==> itBroken[self]
  invariant itBroken[self] || 0 <= rcPos[inputIterator] && rcPos[inputIterator] <= rcLen(inputIterator)
  invariant[!matches] itBroken[self] || itPos[self] >= seqLen(self) || noopSrc(self, itPos[self]) >= rcPos[inputIterator]
  invariant itBroken[self] || itPos[self] <= 0 || noopSrc(self, itPos[self] - 1) < rcPos[inputIterator]
  invariant itBroken[self] || itPos[self] >= seqLen(self) || noopSrc(self, itPos[self]) >= rcPos[inputIterator] - 1
  invariant forall p: string :: {keys(filters)[p]} keys(filters)[p] && visited(p) ==> !recErr(record, p) && deepEq(recVal(record, p), vals(filters)[p])
  modifies rcPos, rcBroken, itErr, ioErr
