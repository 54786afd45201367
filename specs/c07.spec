# The map index: one map from value to positions per property.
macro mapInv(m: *index.Map): bool = m != nil && m.config != nil && m.input != nil

func (*index.MapConfig).DoesHandleProperty ! c p -> r
  prop C07 C22
  ensures[exactly-the-configured-ones] r <==> exists a: int :: {elems(c.Properties)[a]} off(c.Properties) <= a && a < off(c.Properties) + len(c.Properties) && elems(c.Properties)[a] == p
  invariant isHandled ==> exists a: int :: {elems(c.Properties)[a]} off(c.Properties) <= a && a < off(c.Properties) + len(c.Properties) && elems(c.Properties)[a] == p
  invariant forall a: int :: {elems(c.Properties)[a]} off(c.Properties) <= a && a <= off(c.Properties) + rangeindex ==> elems(c.Properties)[a] != p
  opt pure

# mapHas(m, p, f, v): position v is listed for value f of property p
macro mapHas(m: *index.Map, p: string, f: any, v: int): bool = keys(m.index)[p] && keys(vals(m.index)[p])[f] && inArr(elems(vals(vals(m.index)[p])[f]), off(vals(vals(m.index)[p])[f]), len(vals(vals(m.index)[p])[f]), v)

func (*index.Map).GetRecordPositions ! m in filters -> r err
  prop C07
  requires[built] mapInv(m) && in != nil && comparable(in) && comparable(m.input)
  requires[values-can-be-keys] forall p: string; f: any :: {keys(vals(m.index)[p])[f]} keys(m.index)[p] && keys(vals(m.index)[p])[f] ==> comparable(f)
  requires[positions-ascend] forall p: string; f: any :: {vals(vals(m.index)[p])[f]} keys(m.index)[p] && keys(vals(m.index)[p])[f] ==> ascArr(elems(vals(vals(m.index)[p])[f]), off(vals(vals(m.index)[p])[f]), len(vals(vals(m.index)[p])[f]))
  ensures[own-input-only] !goeq(in, m.input) ==> err != nil
  ensures[needs-a-filter] len(filters) == 0 ==> err != nil
  ensures[indexed-properties-only] err == nil ==> forall p: string :: {keys(filters)[p]} keys(filters)[p] ==> exists a: int :: {elems(m.config.Properties)[a]} off(m.config.Properties) <= a && a < off(m.config.Properties) + len(m.config.Properties) && elems(m.config.Properties)[a] == p
  ensures[ready] err == nil ==> r == fn("input/record.EmptyIterator") || itPos[r] == 0 && !itBroken[r]
  ensures[ascending] err == nil ==> asc(r)
  ensures[only-matching] err == nil ==> forall v: int; p: string :: {some(v), keys(filters)[p]} some(v) && itHas(r, v) && keys(filters)[p] ==> mapHas(m, p, vals(filters)[p], v)
  ensures[every-matching] err == nil ==> forall v: int :: {some(v)} some(v) && (forall p: string :: {keys(filters)[p]} keys(filters)[p] ==> mapHas(m, p, vals(filters)[p], v)) ==> itHas(r, v)
  modifies nothing
  invariant forall p: string :: {keys(filters)[p]} keys(filters)[p] && visited(p) ==> exists a: int :: {elems(m.config.Properties)[a]} off(m.config.Properties) <= a && a < off(m.config.Properties) + len(m.config.Properties) && elems(m.config.Properties)[a] == p
  invariant base(individualFiltersResults) > 0 && off(individualFiltersResults) == 0 && fresh(individualFiltersResults)
  invariant forall a: int :: {elems(individualFiltersResults)[a]} 0 <= a && a < len(individualFiltersResults) ==> elems(individualFiltersResults)[a] != 0 && fresh(elems(individualFiltersResults)[a]) && allocated(elems(individualFiltersResults)[a]) && asc(elems(individualFiltersResults)[a]) && itPos[elems(individualFiltersResults)[a]] == 0 && !itBroken[elems(individualFiltersResults)[a]] && owns[elems(individualFiltersResults)[a]][elems(individualFiltersResults)[a]] && seqLen(elems(individualFiltersResults)[a]) >= 0
  invariant forall a, x: int :: {owns[elems(individualFiltersResults)[a]][x]} 0 <= a && a < len(individualFiltersResults) && owns[elems(individualFiltersResults)[a]][x] ==> x == elems(individualFiltersResults)[a]
  invariant forall a, b: int :: {elems(individualFiltersResults)[a], elems(individualFiltersResults)[b]} 0 <= a && a < b && b < len(individualFiltersResults) ==> elems(individualFiltersResults)[a] != elems(individualFiltersResults)[b]
  invariant len(individualFiltersResults) == 0 ==> forall p: string :: {keys(filters)[p]} !(keys(filters)[p] && visited(p))
  invariant some(len(individualFiltersResults))
  invariant forall v, a: int :: {some(v), some(a)} {some(v), elems(individualFiltersResults)[a]} some(v) && some(a) && 0 <= a && a < len(individualFiltersResults) && (forall p: string :: {keys(filters)[p]} keys(filters)[p] && visited(p) ==> mapHas(m, p, vals(filters)[p], v)) ==> itHas(elems(individualFiltersResults)[a], v)
  invariant forall v: int; p: string :: {some(v), keys(filters)[p]} some(v) && keys(filters)[p] && visited(p) && (forall a: int :: {some(a)} some(a) && 0 <= a && a < len(individualFiltersResults) ==> itHas(elems(individualFiltersResults)[a], v)) ==> mapHas(m, p, vals(filters)[p], v)
