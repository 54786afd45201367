# Iterators as sequences. An iterator (a function value) stands for the fixed sequence
# seqAt(it, 0..seqLen(it)-1); itPos[it] is how many of them were handed out already.
logic seqLen(int) int
logic seqAt(int, int) int
logic seqFind(int, int) int
ghost itPos [int]int
ghost itBroken [int]bool
ghost owns [int][int]bool
ghost itErr bool
logic some(int) bool
axiom some-all{some} forall v: int :: {some(v)} some(v)
# asc(c): the sequence is strictly ascending (defined by the two axioms)
logic asc(int) bool
axiom asc-elim{asc} forall c, i, j: int :: {asc(c), seqAt(c,i), seqAt(c,j)} asc(c) && 0 <= i && i < j && j < seqLen(c) ==> seqAt(c,i) < seqAt(c,j)
axiom asc-intro{asc} forall c: int :: {asc(c)} (forall i, j: int :: {seqAt(c,i), seqAt(c,j)} 0 <= i && i < j && j < seqLen(c) ==> seqAt(c,i) < seqAt(c,j)) ==> asc(c)
# seqFind(c, v): where v is in an ascending sequence
axiom seq-find{seqFind} forall c, j: int :: {asc(c), seqAt(c,j)} asc(c) && 0 <= j && j < seqLen(c) ==> seqFind(c, seqAt(c,j)) == j
macro itHas(c: int, v: int): bool = 0 <= seqFind(c, v) && seqFind(c, v) < seqLen(c) && seqAt(c, seqFind(c, v)) == v

functype input/record.PositionIterator ! self -> p err
  ensures[position-or-error] err != nil ==> p == nil && itErr
  ensures[errors-are-reported] err == nil ==> itErr == old(itErr) && (old(itBroken[self]) <==> itBroken[self])
  ensures[next] !old(itBroken[self]) && p != nil ==> old(itPos[self]) < seqLen(self) && *p == seqAt(self, old(itPos[self])) && itPos[self] == old(itPos[self]) + 1
  ensures[end] !old(itBroken[self]) && p == nil && err == nil ==> old(itPos[self]) == seqLen(self) && itPos[self] == old(itPos[self])
  ensures[others] forall x: int :: {itPos[x]} !owns[self][x] ==> itPos[x] == old(itPos[x])
  ensures[others] forall x: int :: {itBroken[x]} !owns[self][x] ==> (itBroken[x] <==> old(itBroken[x]))
  ghostset itPos[self] := if p != nil then old(itPos[self]) + 1 else old(itPos[self])
  ghostset itBroken[self] := itBroken[self] || err != nil
  modifies itPos, itBroken, itErr, ioErr

macro listed(its: []input/record.PositionIterator, a: int): bool = off(its) <= a && a < off(its) + len(its)

func input/record.JoinPositionIterators ! its -> r
  prop C10
  requires[iterators] forall a: int :: {elems(its)[a]} listed(its, a) ==> elems(its)[a] != 0 && asc(elems(its)[a]) && itPos[elems(its)[a]] == 0 && !itBroken[elems(its)[a]] && owns[elems(its)[a]][elems(its)[a]] && seqLen(elems(its)[a]) >= 0
  requires[independent] forall a, b, x: int :: {owns[elems(its)[a]][x], owns[elems(its)[b]][x]} listed(its, a) && listed(its, b) && a < b ==> !(owns[elems(its)[a]][x] && owns[elems(its)[b]][x])
  ensures[one] len(its) == 1 ==> r == its[0]
  ensures[none] len(its) == 0 ==> seqLen(r) == 0
  ensures[ready] r != 0 && itPos[r] == 0 && !itBroken[r]
  ensures[ascending] asc(r)
  ensures[in-every-list] len(its) > 0 ==> forall k, a: int :: {seqAt(r,k), elems(its)[a]} 0 <= k && k < seqLen(r) && listed(its, a) ==> itHas(elems(its)[a], seqAt(r, k))
  ensures[own-state-only] len(its) > 0 ==> forall x: int :: {owns[r][x]} owns[r][x] ==> fresh(x) || exists a: int :: {elems(its)[a]} listed(its, a) && owns[elems(its)[a]][x]
  ensures[result] (len(its) > 1 ==> allocated(r)) && some(r) && seqLen(r) >= 0 && owns[r][r]
  ensures[every-common-position] len(its) > 0 ==> forall v: int :: {seqFind(r, v)} (forall a: int :: {elems(its)[a]} listed(its, a) ==> itHas(elems(its)[a], v)) ==> itHas(r, v)
  closure self input/record.PositionIterator -
    define (forall x: int :: {owns[self][x]} owns[self][x] ==> x == self) && seqLen(self) == 0 && owns[self][self] && itPos[self] == 0 && !itBroken[self]
    closureinv[none-left] itBroken[self] || seqLen(self) == 0 && itPos[self] == 0
  closure self input/record.PositionIterator +iterators
    define itPos[self] == 0 && !itBroken[self] && seqLen(self) >= 0 && owns[self][self]
    define asc(self)
    define forall k, a: int :: {seqAt(self,k), elems(iterators)[a]} 0 <= k && k < seqLen(self) && listed(iterators, a) ==> itHas(elems(iterators)[a], seqAt(self, k))
    define forall v: int :: {seqFind(self, v)} (forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> itHas(elems(iterators)[a], v)) ==> itHas(self, v)
    define forall a, x: int :: {owns[elems(iterators)[a]][x]} listed(iterators, a) && owns[elems(iterators)[a]][x] ==> owns[self][x]
    define forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> !owns[elems(iterators)[a]][self]
    define forall x: int :: {owns[self][x]} owns[self][x] ==> x == self || exists a: int :: {elems(iterators)[a]} listed(iterators, a) && owns[elems(iterators)[a]][x]
    closureinv[lists] len(iterators) > 0 && asc(self) && seqLen(self) >= 0 && owns[self][self]
    assert[hint] !old(itBroken[self]) && p != nil ==> itHas(self, *p)
    closureinv[pos] itPos[self] < seqLen(self) && 0 <= itPos[self] ==> seqFind(self, seqAt(self, itPos[self])) == itPos[self]
    closureinv[pos] itBroken[self] || 0 <= itPos[self] && itPos[self] <= seqLen(self)
    closureinv[lists] forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> elems(iterators)[a] != 0 && asc(elems(iterators)[a]) && owns[elems(iterators)[a]][elems(iterators)[a]] && !owns[elems(iterators)[a]][self]
    closureinv[lists] forall a, x: int :: {owns[elems(iterators)[a]][x]} listed(iterators, a) && owns[elems(iterators)[a]][x] ==> owns[self][x]
    closureinv[lists] forall a, b, x: int :: {owns[elems(iterators)[a]][x], owns[elems(iterators)[b]][x]} listed(iterators, a) && listed(iterators, b) && a < b ==> !(owns[elems(iterators)[a]][x] && owns[elems(iterators)[b]][x])
    closureinv[common] forall k, a: int :: {seqAt(self,k), elems(iterators)[a]} 0 <= k && k < seqLen(self) && listed(iterators, a) ==> itHas(elems(iterators)[a], seqAt(self, k))
    closureinv[common] forall v: int :: {seqFind(self, v)} (forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> itHas(elems(iterators)[a], v)) ==> itHas(self, v)
    closureinv[behind] itBroken[self] || forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> !itBroken[elems(iterators)[a]] && 0 <= itPos[elems(iterators)[a]] && itPos[elems(iterators)[a]] <= seqLen(elems(iterators)[a])
    closureinv[nothing-skipped] itBroken[self] || forall k, a: int :: {seqAt(self,k), elems(iterators)[a]} itPos[self] <= k && k < seqLen(self) && listed(iterators, a) ==> seqFind(elems(iterators)[a], seqAt(self, k)) >= itPos[elems(iterators)[a]]
    closureinv[nothing-again] itBroken[self] || forall k, a: int :: {seqAt(self,k), elems(iterators)[a]} 0 <= k && k < itPos[self] && listed(iterators, a) ==> seqFind(elems(iterators)[a], seqAt(self, k)) < itPos[elems(iterators)[a]]
  invariant itPos[self] == old(itPos[self]) && (itBroken[self] <==> old(itBroken[self])) && itErr == old(itErr)
  invariant forall x: int :: {itPos[x]} !owns[self][x] ==> itPos[x] == old(itPos[x])
  invariant forall x: int :: {itBroken[x]} !owns[self][x] ==> (itBroken[x] <==> old(itBroken[x]))
  invariant off(currentIteratorsValues) == 0 && len(currentIteratorsValues) == len(iterators) && fresh(currentIteratorsValues)
  invariant 1 <= i
  invariant 1 <= listIndex && listIndex <= len(iterators)
  invariant itBroken[self] || forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> !itBroken[elems(iterators)[a]] && old(itPos[elems(iterators)[a]]) <= itPos[elems(iterators)[a]] && itPos[elems(iterators)[a]] <= seqLen(elems(iterators)[a])
  invariant itBroken[self] || itPos[self] >= seqLen(self) || forall a: int :: {elems(iterators)[a]} listed(iterators, a) ==> seqFind(elems(iterators)[a], seqAt(self, itPos[self])) >= itPos[elems(iterators)[a]] - 1
  invariant itBroken[self] || itPos[self] >= seqLen(self) || forall a: int :: {elems(iterators)[a]} listed(iterators, a) && a - off(iterators) >= i ==> seqFind(elems(iterators)[a], seqAt(self, itPos[self])) >= itPos[elems(iterators)[a]]
  invariant[!listIndex] itBroken[self] || itPos[self] >= seqLen(self) || seqFind(iterators[0], seqAt(self, itPos[self])) >= itPos[iterators[0]]
  invariant itBroken[self] || forall j: int :: {elems(currentIteratorsValues)[j]} 1 <= j && j < i && j < len(iterators) ==> itPos[iterators[j]] > 0 && elems(currentIteratorsValues)[j] == seqAt(iterators[j], itPos[iterators[j]] - 1)
  invariant itBroken[self] || forall j: int :: {elems(currentIteratorsValues)[j]} 1 <= j && j < len(iterators) ==> itPos[iterators[j]] > 0 && elems(currentIteratorsValues)[j] == seqAt(iterators[j], itPos[iterators[j]] - 1)
  invariant itBroken[self] || itPos[iterators[0]] > old(itPos[iterators[0]]) && *firstListPosition == seqAt(iterators[0], itPos[iterators[0]] - 1)
  invariant itBroken[self] || forall a: int :: {elems(iterators)[a]} off(iterators) < a && a < off(iterators) + listIndex ==> itPos[elems(iterators)[a]] > 0 && *firstListPosition == seqAt(elems(iterators)[a], itPos[elems(iterators)[a]] - 1)
  invariant itBroken[self] || forall a: int :: {elems(currentIteratorsValues)[a]} 1 <= a && a < listIndex ==> currentIteratorsValues[a] == *firstListPosition
  modifies nothing

# ascArr(a,o,n): a[o..o+n-1] is strictly ascending; inArr(a,o,n,v): v is among them
logic ascArr([int]int, int, int) bool
axiom ascarr-elim{ascArr} forall c: [int]int; o, n, i, j: int :: {ascArr(c,o,n), c[i], c[j]} ascArr(c,o,n) && o <= i && i < j && j < o + n ==> c[i] < c[j]
axiom ascarr-intro{ascArr} forall c: [int]int; o, n: int :: {ascArr(c,o,n)} (forall i, j: int :: {c[i], c[j]} o <= i && i < j && j < o + n ==> c[i] < c[j]) ==> ascArr(c,o,n)
logic inArr([int]int, int, int, int) bool
logic inArrAt([int]int, int, int, int) int
axiom inarr-elim{inArr} forall c: [int]int; o, n, v: int :: {inArr(c,o,n,v)} inArr(c,o,n,v) ==> o <= inArrAt(c,o,n,v) && inArrAt(c,o,n,v) < o + n && c[inArrAt(c,o,n,v)] == v
axiom inarr-intro{inArr} forall c: [int]int; o, n, v, i: int :: {inArr(c,o,n,v), c[i]} o <= i && i < o + n && c[i] == v ==> inArr(c,o,n,v)

func (input/record.PositionList).Iterate ! list -> r
  prop C10 C07
  ensures[ready] r != 0 && fresh(r) && itPos[r] == 0 && !itBroken[r] && owns[r][r] && forall x: int :: {owns[r][x]} owns[r][x] ==> x == r
  ensures[same-positions] seqLen(r) == len(list) && (forall k: int :: {seqAt(r,k)} 0 <= k && k < len(list) ==> seqAt(r, k) == list[k]) && forall a: int :: {elems(list)[a]} off(list) <= a && a < off(list) + len(list) ==> seqAt(r, a - off(list)) == elems(list)[a]
  ensures[ascending] ascArr(elems(list), off(list), len(list)) ==> asc(r)
  ensures[membership] ascArr(elems(list), off(list), len(list)) ==> forall v: int :: {seqFind(r, v)} itHas(r, v) <==> inArr(elems(list), off(list), len(list), v)
  modifies nothing
  closure self input/record.PositionIterator +list
    define itPos[self] == 0 && !itBroken[self] && owns[self][self] && forall x: int :: {owns[self][x]} owns[self][x] ==> x == self
    define seqLen(self) == len(list) && forall k: int :: {seqAt(self,k)} 0 <= k && k < len(list) ==> seqAt(self, k) == list[k]
    define forall a: int :: {elems(list)[a]} off(list) <= a && a < off(list) + len(list) ==> seqAt(self, a - off(list)) == elems(list)[a]
    closureinv[list] seqLen(self) == len(list) && owns[self][self] && forall k: int :: {seqAt(self,k)} 0 <= k && k < len(list) ==> seqAt(self, k) == list[k]
    closureinv[pos] itPos[self] == i && 0 <= i && i <= len(list)

# the one iterator over nothing: it keeps no state
func input/record.EmptyIterator ! -> p err
  prop C10 C07
  ensures[none] p == nil && err == nil
  modifies nothing
axiom empty{seqLen} seqLen(fn("input/record.EmptyIterator")) == 0
axiom empty2{asc} asc(fn("input/record.EmptyIterator"))
