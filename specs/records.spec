# Records as values: what Get and Position answer for a record.
logic recVal(any, string) any
logic recErr(any, string) bool
logic recPos(any) int

iface input/record.Record.Get ! rec path -> v err
  ensures[value] (err == nil <==> !recErr(rec, path)) && (err == nil ==> v == recVal(rec, path)) && (err != nil ==> v == nil)
  ensures[errors-are-reported] err != nil ==> itErr
  ensures[errors-are-reported] err == nil ==> itErr == old(itErr)
  modifies itErr
iface input/record.Record.Position ! rec -> p
  ensures[position] p == recPos(rec)
  opt pure

# An iterator over records stands for the fixed sequence rcAt(it, 0..rcLen(it)-1); rcPos[it] records were handed out already.
logic rcLen(int) int
logic rcAt(int, int) any
ghost rcPos [int]int
ghost rcBroken [int]bool
functype input/record.Iterator ! self -> rec err
  ensures[record-or-error] err != nil ==> rec == nil && itErr
  ensures[errors-are-reported] err == nil ==> itErr == old(itErr) && (old(rcBroken[self]) <==> rcBroken[self])
  ensures[next] !old(rcBroken[self]) && rec != nil ==> old(rcPos[self]) < rcLen(self) && rec == rcAt(self, old(rcPos[self])) && rcPos[self] == old(rcPos[self]) + 1
  ensures[end] !old(rcBroken[self]) && rec == nil && err == nil ==> old(rcPos[self]) == rcLen(self) && rcPos[self] == old(rcPos[self])
  ghostset rcPos[self] := if rec != nil then old(rcPos[self]) + 1 else old(rcPos[self])
  ghostset rcBroken[self] := rcBroken[self] || err != nil
  modifies rcPos[self], rcBroken[self], itErr, ioErr
functype func()(error) ! self -> err
  ensures[errors-are-reported] err != nil ==> itErr
  ensures[errors-are-reported] err == nil ==> itErr == old(itErr)
  modifies itErr, ioErr

# An input is the sequence of its records: inRec(in, 0..inLen(in)-1).
logic inLen(any) int
logic inRec(any, int) any
iface input.Input.IterateAll ! in -> it end err
  ensures[all-records] err == nil ==> it != 0 && end != 0 && rcPos[it] == 0 && !rcBroken[it] && rcLen(it) == inLen(in) && inLen(in) >= 0 && (forall k: int :: {rcAt(it,k)} 0 <= k && k < rcLen(it) ==> rcAt(it, k) == inRec(in, k) && rcAt(it, k) != nil)
  ensures[errors-are-reported] err != nil ==> itErr
  ensures[errors-are-reported] err == nil ==> itErr == old(itErr)
  modifies rcPos, rcBroken, itErr, ioErr

# Values are compared by reflect.DeepEqual (assumed: an equivalence that tells an absent value from any other)
logic deepEq(any, any) bool
logic reflVal(reflect.Value) any
axiom deep-nil{deepEq} forall a: any :: {deepEq(nil, a)} deepEq(nil, a) <==> a == nil
axiom deep-nil2{deepEq} forall a: any :: {deepEq(a, nil)} deepEq(a, nil) <==> a == nil
extern reflect.DeepEqual ! a b -> r
  ensures r <==> deepEq(a, b)
  opt pure
extern reflect.ValueOf ! a -> r
  ensures reflVal(r) == a
  opt pure
extern (reflect.Value).Interface ! v -> r
  requires[valid-value] reflVal(v) != nil
  ensures r == reflVal(v)
  opt pure
logic reflComparable(any) bool
extern reflect.TypeOf ! a -> t
  ensures a != nil ==> t != nil && (reflComparable(t) <==> comparable(a))
  opt pure
iface reflect.Type.Comparable ! t -> r
  ensures r <==> reflComparable(t)
  opt pure
