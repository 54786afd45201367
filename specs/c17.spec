# The JSON outputs: filters, paging, relationships and the answer.

# idxMatch(index, input, property, value, v): the record of the input at position v matches this filter in this index
logic idxMatch(any, any, string, any, int) bool
logic inHas(any, int) bool
# Assumed of every index (C04, C07, C08 and C09 state it of each implementation)
iface index.Index.GetRecordPositions ! idx in filters -> r err
  requires[input] in != nil
  ensures[iterator] err == nil ==> r != 0 && fresh(r) && allocated(r) && itPos[r] == 0 && !itBroken[r] && seqLen(r) >= 0 && asc(r) && owns[r][r] && forall x: int :: {owns[r][x]} owns[r][x] ==> x == r
  ensures[matching] err == nil ==> forall v: int :: {some(v)} some(v) && itHas(r, v) ==> inHas(in, v)
  ensures[matching] err == nil ==> forall v: int; p: string :: {some(v), keys(filters)[p]} some(v) && itHas(r, v) && keys(filters)[p] ==> idxMatch(idx, in, p, vals(filters)[p], v)
  ensures[matching] err == nil ==> forall v: int :: {some(v)} some(v) && inHas(in, v) && (forall p: string :: {keys(filters)[p]} keys(filters)[p] ==> idxMatch(idx, in, p, vals(filters)[p], v)) ==> itHas(r, v)
  modifies rcPos, rcBroken, itErr, ioErr

# the record an input has at a position, and all the data of a record
logic inAt(any, int) any
logic allHas(any, string) bool
logic allVal(any, string) any
iface input.Input.Get ! in pos -> rec err
  ensures[record] err == nil ==> rec != nil && rec == inAt(in, pos)
  modifies ioErr
iface input/record.Record.All ! rec -> m err
  ensures[all-properties] err == nil ==> m != nil && forall p: string :: {keys(m)[p]} {vals(m)[p]} (keys(m)[p] <==> allHas(rec, p)) && (keys(m)[p] ==> vals(m)[p] == allVal(rec, p))
  modifies ioErr

# --- the answer: how many times the client was answered, with what
ghost answers int
ghost answeredOk bool
ghost answeredErr any
ghost sentDocs int
ghost sentDoc any
# how many error documents were sent, and the status of the answer
ghost errDocs int
ghost answeredStatus int
ghost answeredType string
ghost contentType [int]string
functype func(error)(error) ! self e -> r
  requires[an-error] e != nil
  ensures[answered-with-the-error] answers == old(answers) + 1 && !answeredOk && sentDocs == old(sentDocs) && errDocs == old(errDocs) + 1
  ensures[status] answeredStatus == (if isNotFound(e) then 404 else 500)
  ghostset answeredErr := e
  modifies answers, answeredOk, answeredErr, errDocs, answeredStatus, answeredType, contentType
functype func()(io.Writer) ! self -> w
  ensures[answered] answers == old(answers) + 1 && answeredOk && w != nil && answeredStatus == 200
  modifies answers, answeredOk, answeredStatus, answeredType, contentType
logic errIs(any, any) bool
macro isNotFound(e: any): bool = errIs(e, @"input/record.RecordNotFoundError")
extern errors.Is ! e target -> r
  ensures r <==> errIs(e, target)
  opt pure
iface io.Writer.Write ! w p -> n err
  ensures sentDocs == old(sentDocs) + 1 && sentDoc == docOf(base(p))
  modifies sentDocs, sentDoc
logic encTo(ref) any
extern encoding/json.NewEncoder ! w -> e
  ensures e != nil && encTo(e) == w
  opt pure
extern (*encoding/json.Encoder).Encode ! e v -> err
  requires[buffer] is(encTo(e), "*bytes.Buffer")
  ensures err == nil && old(bufLen[refof(encTo(e))]) == 0 ==> bufDoc[refof(encTo(e))] == v
  ensures err == nil ==> bufLen[refof(encTo(e))] > old(bufLen[refof(encTo(e))])
  modifies bufDoc[refof(encTo(e))], bufLen[refof(encTo(e))], bufData[refof(encTo(e))]

func output.sendJson ! data sendError sendSucces -> err
  prop C17 C18 C21
  requires[handlers] sendError != 0 && sendSucces != 0
  ensures[answered-once] answers == old(answers) + 1
  ensures[the-document] answeredOk ==> sentDocs == old(sentDocs) + 1 && sentDoc == data
  ensures[no-document-otherwise] !answeredOk ==> sentDocs == old(sentDocs) && errDocs == old(errDocs) + 1 && (answeredStatus == 404 || answeredStatus == 500)
  ensures[no-error-with-a-document] answeredOk ==> errDocs == old(errDocs) && answeredStatus == 200
  modifies answers, answeredOk, answeredErr, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType

# --- paging
macro wantedLimit(o: *output.JsonArray, n: int): int = if n > o.config.Limit.Max then o.config.Limit.Max else n
func (*output.JsonArray).getLimit ! o params -> n err
  prop C17
  requires[configured] o.config != nil
  ensures[default] !keys(params)[o.config.Limit.Parameter] ==> err == nil && n == wantedLimit(o, o.config.Limit.Default)
  ensures[requested] keys(params)[o.config.Limit.Parameter] && err == nil ==> isInteger(vals(params)[o.config.Limit.Parameter]) && integerOf(vals(params)[o.config.Limit.Parameter]) > 0 && n == wantedLimit(o, integerOf(vals(params)[o.config.Limit.Parameter]))
  ensures[only-positive-numbers] keys(params)[o.config.Limit.Parameter] && isInteger(vals(params)[o.config.Limit.Parameter]) && integerOf(vals(params)[o.config.Limit.Parameter]) > 0 ==> err == nil
  modifies nothing
func (*output.JsonArray).getOffset ! o params -> n err
  prop C17
  requires[configured] o.config != nil
  ensures[default] !keys(params)[o.config.Offset.Parameter] ==> err == nil && n == 0
  ensures[requested] keys(params)[o.config.Offset.Parameter] && err == nil ==> isInteger(vals(params)[o.config.Offset.Parameter]) && integerOf(vals(params)[o.config.Offset.Parameter]) >= 0 && n == integerOf(vals(params)[o.config.Offset.Parameter])
  ensures[only-numbers] keys(params)[o.config.Offset.Parameter] && isInteger(vals(params)[o.config.Offset.Parameter]) && integerOf(vals(params)[o.config.Offset.Parameter]) >= 0 ==> err == nil
  modifies nothing

# --- filters
macro par(o: *output.JsonArray, n: string): *output/parameter.ParameterConfig = vals(o.config.Parameters)[n]
func (*output.JsonArray).getFiltersPerIndex ! o params -> f err
  prop C18
  requires[configured] o.config != nil && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> vals(o.config.Parameters)[n] != nil) && (forall k: string :: {keys(o.parsers)[k]} keys(o.parsers)[k] ==> vals(o.parsers)[k] != nil)
  ensures[decodable] err == nil ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] ==> keys(o.parsers)[par(o, n).Parser] && !unparsable(vals(o.parsers)[par(o, n).Parser], vals(params)[n])
  ensures[every-parameter] err == nil ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] ==> keys(f)[par(o, n).Index] && keys(vals(f)[par(o, n).Index])[par(o, n).Property] && vals(vals(f)[par(o, n).Index])[par(o, n).Property] == parsed(vals(o.parsers)[par(o, n).Parser], vals(params)[n])
  ensures[nothing-else] err == nil ==> forall i, p: string :: {keys(vals(f)[i])[p]} keys(f)[i] && keys(vals(f)[i])[p] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] && par(o, n).Index == i && par(o, n).Property == p
  ensures[nothing-else] err == nil ==> f != nil && forall i: string :: {keys(f)[i]} keys(f)[i] ==> vals(f)[i] != nil && exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] && par(o, n).Index == i
  invariant filtersPerIndex != nil && fresh(filtersPerIndex) && forall i: string :: {keys(filtersPerIndex)[i]} {vals(filtersPerIndex)[i]} keys(filtersPerIndex)[i] ==> vals(filtersPerIndex)[i] != nil && fresh(vals(filtersPerIndex)[i]) && allocated(vals(filtersPerIndex)[i])
  invariant forall i, j: string :: {keys(filtersPerIndex)[i], keys(filtersPerIndex)[j]} keys(filtersPerIndex)[i] && keys(filtersPerIndex)[j] && i != j ==> vals(filtersPerIndex)[i] != vals(filtersPerIndex)[j]
  invariant forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && visited(n) && keys(params)[n] ==> keys(o.parsers)[par(o, n).Parser] && !unparsable(vals(o.parsers)[par(o, n).Parser], vals(params)[n])
  invariant forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && visited(n) && keys(params)[n] ==> keys(filtersPerIndex)[par(o, n).Index] && keys(vals(filtersPerIndex)[par(o, n).Index])[par(o, n).Property] && vals(vals(filtersPerIndex)[par(o, n).Index])[par(o, n).Property] == parsed(vals(o.parsers)[par(o, n).Parser], vals(params)[n])
  invariant forall i, p: string :: {keys(vals(filtersPerIndex)[i])[p]} keys(filtersPerIndex)[i] && keys(vals(filtersPerIndex)[i])[p] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] && par(o, n).Index == i && par(o, n).Property == p
  invariant forall i: string :: {keys(filtersPerIndex)[i]} keys(filtersPerIndex)[i] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] && par(o, n).Index == i
  modifies nothing

func (*output.JsonObject).getRouteFiltersPerIndex ! o params -> f err
  prop C18
  requires[configured] o.config != nil && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> vals(o.config.Parameters)[n] != nil && keys(o.paramParsers)[n] && vals(o.paramParsers)[n] != nil)
  ensures[decodable] err == nil ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> !unparsable(vals(o.paramParsers)[n], routeValue(params, n))
  ensures[every-parameter] err == nil ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> keys(f)[opar(o, n).Index] && keys(vals(f)[opar(o, n).Index])[opar(o, n).Property] && vals(vals(f)[opar(o, n).Index])[opar(o, n).Property] == parsed(vals(o.paramParsers)[n], routeValue(params, n))
  ensures[nothing-else] err == nil ==> forall i, p: string :: {keys(vals(f)[i])[p]} keys(f)[i] && keys(vals(f)[i])[p] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && opar(o, n).Index == i && opar(o, n).Property == p
  ensures[nothing-else] err == nil ==> f != nil && forall i: string :: {keys(f)[i]} keys(f)[i] ==> vals(f)[i] != nil && exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && opar(o, n).Index == i
  invariant filtersPerIndex != nil && fresh(filtersPerIndex) && forall i: string :: {keys(filtersPerIndex)[i]} {vals(filtersPerIndex)[i]} keys(filtersPerIndex)[i] ==> vals(filtersPerIndex)[i] != nil && fresh(vals(filtersPerIndex)[i]) && allocated(vals(filtersPerIndex)[i])
  invariant forall i, j: string :: {keys(filtersPerIndex)[i], keys(filtersPerIndex)[j]} keys(filtersPerIndex)[i] && keys(filtersPerIndex)[j] && i != j ==> vals(filtersPerIndex)[i] != vals(filtersPerIndex)[j]
  invariant forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && visited(n) ==> !unparsable(vals(o.paramParsers)[n], routeValue(params, n))
  invariant forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && visited(n) ==> keys(filtersPerIndex)[opar(o, n).Index] && keys(vals(filtersPerIndex)[opar(o, n).Index])[opar(o, n).Property] && vals(vals(filtersPerIndex)[opar(o, n).Index])[opar(o, n).Property] == parsed(vals(o.paramParsers)[n], routeValue(params, n))
  invariant forall i, p: string :: {keys(vals(filtersPerIndex)[i])[p]} keys(filtersPerIndex)[i] && keys(vals(filtersPerIndex)[i])[p] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && opar(o, n).Index == i && opar(o, n).Property == p
  invariant forall i: string :: {keys(filtersPerIndex)[i]} keys(filtersPerIndex)[i] ==> exists n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && opar(o, n).Index == i
  modifies nothing
macro opar(o: *output.JsonObject, n: string): *output/parameter.ParameterConfig = vals(o.config.Parameters)[n]
macro routeValue(params: map[string]string, n: string): string = if keys(params)[n] then vals(params)[n] else ""

macro oneFresh(r: int): bool = r != 0 && fresh(r) && allocated(r) && itPos[r] == 0 && !itBroken[r] && seqLen(r) >= 0 && asc(r) && owns[r][r]
func output.getFilteredRecordPositionsPerIndex ! def indexes in filters -> its err
  prop C18 C19
  requires[configured] def != nil && in != nil && forall k: string :: {keys(indexes)[k]} keys(indexes)[k] ==> vals(indexes)[k] != nil
  ensures[known-indexes] err == nil ==> forall i: string :: {keys(filters)[i]} keys(filters)[i] ==> keys(indexes)[i]
  ensures[iterators] err == nil ==> len(its) > 0 && forall a: int :: {elems(its)[a]} listed(its, a) ==> oneFresh(elems(its)[a])
  ensures[independent] err == nil ==> forall a, x: int :: {owns[elems(its)[a]][x]} listed(its, a) && owns[elems(its)[a]][x] ==> x == elems(its)[a]
  ensures[independent] err == nil ==> forall a, b: int :: {elems(its)[a], elems(its)[b]} listed(its, a) && listed(its, b) && a < b ==> elems(its)[a] != elems(its)[b]
  ensures[records-of-the-input] err == nil ==> forall v, a: int :: {some(v), elems(its)[a]} some(v) && listed(its, a) && itHas(elems(its)[a], v) ==> inHas(in, v)
  ensures[every-filter] err == nil ==> forall v: int; i, p: string :: {some(v), keys(vals(filters)[i])[p]} some(v) && keys(filters)[i] && keys(vals(filters)[i])[p] && (forall a: int :: {elems(its)[a]} listed(its, a) ==> itHas(elems(its)[a], v)) ==> idxMatch(vals(indexes)[i], in, p, vals(vals(filters)[i])[p], v)
  ensures[nothing-else] err == nil ==> forall v, a: int :: {some(v), elems(its)[a]} some(v) && listed(its, a) && inHas(in, v) && (forall i, p: string :: {keys(vals(filters)[i])[p]} keys(filters)[i] && keys(vals(filters)[i])[p] ==> idxMatch(vals(indexes)[i], in, p, vals(vals(filters)[i])[p], v)) ==> itHas(elems(its)[a], v)
  invariant base(iterators) > 0 && off(iterators) == 0 && fresh(iterators)
  invariant forall i: string :: {keys(filters)[i]} keys(filters)[i] && visited(i) ==> keys(indexes)[i] && len(iterators) > 0
  invariant forall a: int :: {elems(iterators)[a]} 0 <= a && a < len(iterators) ==> oneFresh(elems(iterators)[a])
  invariant forall a, x: int :: {owns[elems(iterators)[a]][x]} 0 <= a && a < len(iterators) && owns[elems(iterators)[a]][x] ==> x == elems(iterators)[a]
  invariant forall a, b: int :: {elems(iterators)[a], elems(iterators)[b]} 0 <= a && a < b && b < len(iterators) ==> elems(iterators)[a] != elems(iterators)[b]
  invariant forall v, a: int :: {some(v), elems(iterators)[a]} some(v) && 0 <= a && a < len(iterators) && itHas(elems(iterators)[a], v) ==> inHas(in, v)
  invariant some(len(iterators))
  invariant forall v: int; i, p: string :: {some(v), keys(vals(filters)[i])[p]} some(v) && keys(filters)[i] && visited(i) && keys(vals(filters)[i])[p] && (forall a: int :: {some(a)} some(a) && 0 <= a && a < len(iterators) ==> itHas(elems(iterators)[a], v)) ==> idxMatch(vals(indexes)[i], in, p, vals(vals(filters)[i])[p], v)
  invariant forall v, a: int :: {some(v), some(a)} {some(v), elems(iterators)[a]} some(v) && some(a) && 0 <= a && a < len(iterators) && inHas(in, v) && (forall i, p: string :: {keys(vals(filters)[i])[p]} keys(filters)[i] && keys(vals(filters)[i])[p] ==> idxMatch(vals(indexes)[i], in, p, vals(vals(filters)[i])[p], v)) ==> itHas(elems(iterators)[a], v)
  modifies rcPos, rcBroken, itErr, ioErr

macro matchListed(ms: []*output/relationship.RelationshipMatchConfig, a: int): bool = off(ms) <= a && a < off(ms) + len(ms)
func output.getRelationshipFiltersPerIndex ! data ms name -> f err
  prop C19
  requires[configured] forall a: int :: {elems(ms)[a]} matchListed(ms, a) ==> elems(ms)[a] != nil
  requires[distinct-filters] forall a, b: int :: {elems(ms)[a], elems(ms)[b]} matchListed(ms, a) && matchListed(ms, b) && a < b ==> elems(ms)[a].ChildProperty != elems(ms)[b].ChildProperty
  ensures[known-parent-properties] err == nil ==> forall a: int :: {elems(ms)[a]} matchListed(ms, a) ==> keys(data)[elems(ms)[a].ParentProperty]
  ensures[every-match] err == nil ==> forall a: int :: {elems(ms)[a]} matchListed(ms, a) ==> keys(f)[elems(ms)[a].ChildIndex] && keys(vals(f)[elems(ms)[a].ChildIndex])[elems(ms)[a].ChildProperty] && vals(vals(f)[elems(ms)[a].ChildIndex])[elems(ms)[a].ChildProperty] == vals(data)[elems(ms)[a].ParentProperty]
  ensures[nothing-else] err == nil ==> f != nil && forall i, p: string :: {keys(vals(f)[i])[p]} keys(f)[i] && keys(vals(f)[i])[p] ==> exists a: int :: {elems(ms)[a]} matchListed(ms, a) && elems(ms)[a].ChildIndex == i && elems(ms)[a].ChildProperty == p
  invariant filtersPerIndex != nil && fresh(filtersPerIndex) && forall i: string :: {keys(filtersPerIndex)[i]} {vals(filtersPerIndex)[i]} keys(filtersPerIndex)[i] ==> vals(filtersPerIndex)[i] != nil && fresh(vals(filtersPerIndex)[i]) && allocated(vals(filtersPerIndex)[i]) && vals(filtersPerIndex)[i] != filtersPerIndex
  invariant forall i, j: string :: {keys(filtersPerIndex)[i], keys(filtersPerIndex)[j]} keys(filtersPerIndex)[i] && keys(filtersPerIndex)[j] && i != j ==> vals(filtersPerIndex)[i] != vals(filtersPerIndex)[j]
  invariant forall a: int :: {elems(ms)[a]} off(ms) <= a && a <= off(ms) + rangeindex ==> keys(data)[elems(ms)[a].ParentProperty]
  invariant forall a: int :: {elems(ms)[a]} off(ms) <= a && a <= off(ms) + rangeindex ==> keys(filtersPerIndex)[elems(ms)[a].ChildIndex] && keys(vals(filtersPerIndex)[elems(ms)[a].ChildIndex])[elems(ms)[a].ChildProperty] && vals(vals(filtersPerIndex)[elems(ms)[a].ChildIndex])[elems(ms)[a].ChildProperty] == vals(data)[elems(ms)[a].ParentProperty]
  invariant forall i, p: string :: {keys(vals(filtersPerIndex)[i])[p]} keys(filtersPerIndex)[i] && keys(vals(filtersPerIndex)[i])[p] ==> exists a: int :: {elems(ms)[a]} off(ms) <= a && a <= off(ms) + rangeindex && elems(ms)[a].ChildIndex == i && elems(ms)[a].ChildProperty == p
  modifies nothing

# --- relationships
# Accepted configurations (C22): no empty relationship, match or sort item, one filter per property
macro relsValid(): bool = (forall c: *output/relationship.RelationshipConfig; k: string :: {keys(c.Relationships)[k]} keys(c.Relationships)[k] ==> vals(c.Relationships)[k] != nil) && (forall c: *output/relationship.RelationshipConfig; a: int :: {elems(c.Match)[a]} matchListed(c.Match, a) ==> elems(c.Match)[a] != nil) && (forall c: *output/relationship.RelationshipConfig; a, b: int :: {elems(c.Match)[a], elems(c.Match)[b]} matchListed(c.Match, a) && matchListed(c.Match, b) && a < b ==> elems(c.Match)[a].ChildProperty != elems(c.Match)[b].ChildProperty) && (forall c: *output/relationship.RelationshipConfig; a: int :: {elems(c.Sort)[a]} off(c.Sort) <= a && a < off(c.Sort) + len(c.Sort) ==> elems(c.Sort)[a] != nil)
macro partsValid(def: any, indexes: map[string]index.Index, inputs: map[string]input.Input): bool = def != nil && (forall k: string :: {keys(indexes)[k]} keys(indexes)[k] ==> vals(indexes)[k] != nil) && (forall k: string :: {keys(inputs)[k]} keys(inputs)[k] ==> vals(inputs)[k] != nil)
# the records related to a parent: the ascending sequence j of the positions matching every configured match
macro relatedTo(j: int, data: map[string]any, c: *output/relationship.RelationshipConfig, indexes: map[string]index.Index, in: any): bool = asc(j) && seqLen(j) >= 0 && (forall v: int :: {some(v)} some(v) && itHas(j, v) ==> inHas(in, v)) && (forall v, a: int :: {some(v), elems(c.Match)[a]} some(v) && itHas(j, v) && matchListed(c.Match, a) ==> idxMatch(vals(indexes)[elems(c.Match)[a].ChildIndex], in, elems(c.Match)[a].ChildProperty, vals(data)[elems(c.Match)[a].ParentProperty], v)) && (forall v: int :: {some(v)} some(v) && inHas(in, v) && (forall a: int :: {elems(c.Match)[a]} matchListed(c.Match, a) ==> idxMatch(vals(indexes)[elems(c.Match)[a].ChildIndex], in, elems(c.Match)[a].ChildProperty, vals(data)[elems(c.Match)[a].ParentProperty], v)) ==> itHas(j, v))
macro relCount(c: *output/relationship.RelationshipConfig, n: int): int = if c.Limit == 0 || n < c.Limit then n else c.Limit
# the attached value
macro attached(v: any, j: int, c: *output/relationship.RelationshipConfig): bool = if c.IsArray then is(v, "[]map[string]any") && len(as(v, "[]map[string]any")) == relCount(c, seqLen(j)) else (seqLen(j) == 0 ==> v == nil) && (seqLen(j) > 0 ==> is(v, "map[string]any") && as(v, "map[string]any") != nil)

func output.loadRelationships ! data rels def indexes inputs rootInput -> r err
  prop C19
  requires[configured] relsValid() && partsValid(def, indexes, inputs) && forall k: string :: {keys(rels)[k]} keys(rels)[k] ==> vals(rels)[k] != nil
  ensures[fresh] err == nil ==> r != nil && fresh(r)
  ensures[other-properties-unchanged] err == nil ==> forall p: string :: {keys(r)[p]} {vals(r)[p]} !keys(rels)[p] ==> (keys(r)[p] <==> keys(data)[p]) && (keys(r)[p] ==> vals(r)[p] == vals(data)[p])
  ensures[known-input-and-parents] err == nil ==> forall n: string; a: int :: {keys(rels)[n], elems(vals(rels)[n].Match)[a]} keys(rels)[n] && matchListed(vals(rels)[n].Match, a) ==> keys(inputs)[vals(rels)[n].Input] && keys(data)[elems(vals(rels)[n].Match)[a].ParentProperty]
  ensures[every-relationship] err == nil ==> forall n: string :: {keys(rels)[n]} keys(rels)[n] ==> keys(r)[n] && exists j: int :: {some(j)} some(j) && relatedTo(j, data, vals(rels)[n], indexes, vals(inputs)[vals(rels)[n].Input]) && attached(vals(r)[n], j, vals(rels)[n])
  ensures[others] forall x: int :: {itPos[x]} !fresh(x) ==> itPos[x] == old(itPos[x]) && (itBroken[x] <==> old(itBroken[x]))
  invariant result != nil && fresh(result) && allocated(result)
  invariant forall x: int :: {itPos[x]} !fresh(x) ==> itPos[x] == old(itPos[x]) && (itBroken[x] <==> old(itBroken[x]))
  invariant[!relationshipName] forall p: string :: {keys(result)[p]} {vals(result)[p]} (keys(result)[p] <==> keys(data)[p] && visited(p)) && (keys(result)[p] ==> vals(result)[p] == vals(data)[p])
  invariant forall p: string :: {keys(result)[p]} {vals(result)[p]} !keys(rels)[p] ==> (keys(result)[p] <==> keys(data)[p]) && (keys(result)[p] ==> vals(result)[p] == vals(data)[p])
  invariant[!relationshipRecords] forall n: string; a: int :: {keys(rels)[n], elems(vals(rels)[n].Match)[a]} keys(rels)[n] && visited(n) && matchListed(vals(rels)[n].Match, a) ==> keys(inputs)[vals(rels)[n].Input] && keys(data)[elems(vals(rels)[n].Match)[a].ParentProperty]
  invariant[!relationshipRecords] forall n: string :: {keys(rels)[n]} keys(rels)[n] && visited(n) ==> keys(result)[n] && exists j: int :: {some(j)} some(j) && relatedTo(j, data, vals(rels)[n], indexes, vals(inputs)[vals(rels)[n].Input]) && attached(vals(result)[n], j, vals(rels)[n])
  invariant base(relationshipRecords) > 0 && fresh(relationshipRecords) && forall a: int :: {elems(relationshipRecords)[a]} off(relationshipRecords) <= a && a < off(relationshipRecords) + len(relationshipRecords) ==> elems(relationshipRecords)[a] != nil
  invariant !itBroken[relationshipRecordPositionsIterator] && itPos[relationshipRecordPositionsIterator] == len(relationshipRecords) && len(relationshipRecords) <= seqLen(relationshipRecordPositionsIterator)
  invariant fresh(relationshipItems) && off(relationshipItems) == 0 && len(relationshipItems) == rangeindex + 1 && (len(relationshipItems) < count || count == 0)
  invariant forall a: int :: {elems(relationshipItems)[a]} 0 <= a && a < len(relationshipItems) ==> elems(relationshipItems)[a] != nil
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken

func output.getDataFromPosition ! pos rels def indexes inputs rootInput -> r err
  prop C17 C18 C19
  requires[configured] relsValid() && partsValid(def, indexes, inputs) && forall k: string :: {keys(rels)[k]} keys(rels)[k] ==> vals(rels)[k] != nil
  ensures[known-input] err == nil ==> keys(inputs)[rootInput]
  ensures[record-of-the-position] err == nil ==> r != nil && fresh(r) && allocated(r) && forall p: string :: {keys(r)[p]} {vals(r)[p]} itemHas(r, inAt(vals(inputs)[rootInput], pos), rels, p)
  ensures[others] forall x: int :: {itPos[x]} !fresh(x) ==> itPos[x] == old(itPos[x]) && (itBroken[x] <==> old(itBroken[x]))
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken

# one iterator over the positions matching every configured parameter of the request
macro requested(o: *output.JsonArray, params: map[string]string, j: int): bool = asc(j) && seqLen(j) >= 0 && (forall v: int :: {some(v)} some(v) && itHas(j, v) ==> inHas(o.input, v)) && (forall v: int; n: string :: {some(v), keys(o.config.Parameters)[n]} some(v) && itHas(j, v) && keys(o.config.Parameters)[n] && keys(params)[n] ==> idxMatch(vals(o.indexes)[par(o, n).Index], o.input, par(o, n).Property, parsed(vals(o.parsers)[par(o, n).Parser], vals(params)[n]), v)) && (forall v: int :: {some(v)} some(v) && inHas(o.input, v) && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] ==> idxMatch(vals(o.indexes)[par(o, n).Index], o.input, par(o, n).Property, parsed(vals(o.parsers)[par(o, n).Parser], vals(params)[n]), v)) ==> itHas(j, v))
macro offsetOf(o: *output.JsonArray, params: map[string]string): int = if keys(params)[o.config.Offset.Parameter] then integerOf(vals(params)[o.config.Offset.Parameter]) else 0
macro limitOf(o: *output.JsonArray, params: map[string]string): int = wantedLimit(o, if keys(params)[o.config.Limit.Parameter] then integerOf(vals(params)[o.config.Limit.Parameter]) else o.config.Limit.Default)
macro left(n: int, offset: int): int = if offset < n then n - offset else 0
macro atMost(n: int, limit: int): int = if n < limit then n else limit
# the document holds the records of the page, in order
macro isPage(doc: any, o: *output.JsonArray, params: map[string]string, j: int): bool = is(doc, "[]any") && len(as(doc, "[]any")) == atMost(left(seqLen(j), offsetOf(o, params)), limitOf(o, params)) && off(as(doc, "[]any")) == 0 && (forall k: int :: {elems(as(doc, "[]any"))[k]} 0 <= k && k < len(as(doc, "[]any")) ==> is(elems(as(doc, "[]any"))[k], "map[string]any")) && (forall k: int; p: string :: {keys(as(elems(as(doc, "[]any"))[k], "map[string]any"))[p]} 0 <= k && k < len(as(doc, "[]any")) ==> itemHas(as(elems(as(doc, "[]any"))[k], "map[string]any"), inAt(vals(o.inputs)[o.config.Input], seqAt(j, offsetOf(o, params) + k)), o.config.Relationships, p))
macro badNumber(params: map[string]string, n: string, min: int): bool = keys(params)[n] && !(isInteger(vals(params)[n]) && integerOf(vals(params)[n]) >= min)

func (*output.JsonArray).Handle ! o params payload sendError sendSucces -> r
  prop C17 C18 C21
  requires[handlers] sendError != 0 && sendSucces != 0
  requires[configured] o.config != nil && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> vals(o.config.Parameters)[n] != nil) && (forall k: string :: {keys(o.parsers)[k]} keys(o.parsers)[k] ==> vals(o.parsers)[k] != nil)
  requires[configured] o.input != nil && relsValid() && partsValid(o.defaultIndex, o.indexes, o.inputs) && forall k: string :: {keys(o.config.Relationships)[k]} keys(o.config.Relationships)[k] ==> vals(o.config.Relationships)[k] != nil
  ensures[answered-once] answers == old(answers) + 1
  ensures[one-document] answeredOk ==> sentDocs == old(sentDocs) + 1
  ensures[no-document-with-an-error] !answeredOk ==> sentDocs == old(sentDocs) && errDocs == old(errDocs) + 1 && (answeredStatus == 404 || answeredStatus == 500)
  ensures[no-error-with-a-document] answeredOk ==> errDocs == old(errDocs) && answeredStatus == 200
  ensures[bad-paging-is-an-error] badNumber(params, o.config.Limit.Parameter, 1) || badNumber(params, o.config.Offset.Parameter, 0) ==> !answeredOk
  ensures[undecodable-is-an-error] answeredOk ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] && keys(params)[n] ==> keys(o.indexes)[par(o, n).Index] && keys(o.parsers)[par(o, n).Parser] && !unparsable(vals(o.parsers)[par(o, n).Parser], vals(params)[n])
  ensures[the-page] answeredOk ==> exists j: int :: {some(j)} some(j) && requested(o, params, j) && isPage(sentDoc, o, params, j)
  invariant answers == old(answers) && sentDocs == old(sentDocs) && errDocs == old(errDocs)
  invariant 0 <= i && i <= offset && !itBroken[nextPosition] && itPos[nextPosition] == i && i <= seqLen(nextPosition)
  invariant fresh(rowsData) && off(rowsData) == 0 && len(rowsData) <= limit && !itBroken[nextPosition] && itPos[nextPosition] <= seqLen(nextPosition)
  invariant itPos[nextPosition] == len(rowsData) + (if offset < seqLen(nextPosition) then offset else seqLen(nextPosition))
  invariant forall k: int :: {elems(rowsData)[k]} 0 <= k && k < len(rowsData) ==> is(elems(rowsData)[k], "map[string]any") && allocated(as(elems(rowsData)[k], "map[string]any")) && fresh(as(elems(rowsData)[k], "map[string]any"))
  invariant forall k: int; p: string :: {keys(as(elems(rowsData)[k], "map[string]any"))[p]} 0 <= k && k < len(rowsData) ==> itemHas(as(elems(rowsData)[k], "map[string]any"), inAt(vals(o.inputs)[o.config.Input], seqAt(nextPosition, offset + k)), o.config.Relationships, p)
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken, answers, answeredOk, answeredErr, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType
# m holds the data of a record, apart from its own relationships
macro itemHas(m: map[string]any, rec: any, rels: map[string]*output/relationship.RelationshipConfig, p: string): bool = !keys(rels)[p] ==> (keys(m)[p] <==> allHas(rec, p)) && (keys(m)[p] ==> vals(m)[p] == allVal(rec, p))

macro routed(o: *output.JsonObject, params: map[string]string, j: int): bool = asc(j) && seqLen(j) >= 0 && (forall v: int :: {some(v)} some(v) && itHas(j, v) ==> inHas(o.input, v)) && (forall v: int; n: string :: {some(v), keys(o.config.Parameters)[n]} some(v) && itHas(j, v) && keys(o.config.Parameters)[n] ==> idxMatch(vals(o.indexes)[opar(o, n).Index], o.input, opar(o, n).Property, parsed(vals(o.paramParsers)[n], routeValue(params, n)), v)) && (forall v: int :: {some(v)} some(v) && inHas(o.input, v) && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> idxMatch(vals(o.indexes)[opar(o, n).Index], o.input, opar(o, n).Property, parsed(vals(o.paramParsers)[n], routeValue(params, n)), v)) ==> itHas(j, v))
func (*output.JsonObject).Handle ! o params payload sendError sendSucces -> r
  prop C18 C21
  requires[handlers] sendError != 0 && sendSucces != 0
  requires[configured] o.config != nil && (forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> vals(o.config.Parameters)[n] != nil && keys(o.paramParsers)[n] && vals(o.paramParsers)[n] != nil)
  requires[configured] o.input != nil && relsValid() && partsValid(o.defaultIndex, o.indexes, o.inputs) && forall k: string :: {keys(o.config.Relationships)[k]} keys(o.config.Relationships)[k] ==> vals(o.config.Relationships)[k] != nil
  ensures[answered-once] answers == old(answers) + 1
  ensures[one-document] answeredOk ==> sentDocs == old(sentDocs) + 1
  ensures[no-document-with-an-error] !answeredOk ==> sentDocs == old(sentDocs) && errDocs == old(errDocs) + 1 && (answeredStatus == 404 || answeredStatus == 500)
  ensures[no-error-with-a-document] answeredOk ==> errDocs == old(errDocs) && answeredStatus == 200
  ensures[undecodable-is-an-error] answeredOk ==> forall n: string :: {keys(o.config.Parameters)[n]} keys(o.config.Parameters)[n] ==> keys(o.indexes)[opar(o, n).Index] && !unparsable(vals(o.paramParsers)[n], routeValue(params, n))
  ensures[the-first-match] answeredOk ==> exists j: int :: {some(j)} some(j) && routed(o, params, j) && seqLen(j) > 0 && is(sentDoc, "map[string]any") && forall p: string :: {keys(as(sentDoc, "map[string]any"))[p]} itemHas(as(sentDoc, "map[string]any"), inAt(vals(o.inputs)[o.config.Input], seqAt(j, 0)), o.config.Relationships, p)
  modifies rcPos, rcBroken, itErr, ioErr, itPos, itBroken, answers, answeredOk, answeredErr, sentDocs, sentDoc, errDocs, answeredStatus, answeredType, contentType

func output.checkRelationshipMatches ! inputs rel parent -> err
  prop C18 C19
  requires[configured] rel != nil && relsValid()
  ensures[known-inputs] err == nil ==> forall k: string :: {keys(rel.Relationships)[k]} keys(rel.Relationships)[k] ==> keys(inputs)[vals(rel.Relationships)[k].Input]
  invariant forall k: string :: {keys(rel.Relationships)[k]} keys(rel.Relationships)[k] && visited(k) ==> keys(inputs)[vals(rel.Relationships)[k].Input]
  opt pure

func output.NewJsonArray ! config inputs def indexes parsers -> o err
  prop C18 C23
  requires[configured] config != nil && relsValid() && forall k: string :: {keys(config.Relationships)[k]} keys(config.Relationships)[k] ==> vals(config.Relationships)[k] != nil
  ensures[configured-parts] err == nil ==> o != nil && fresh(o) && o.config == config && o.inputs == inputs && o.defaultIndex == def && o.indexes == indexes && o.parsers == parsers && keys(inputs)[config.Input] && o.input == vals(inputs)[config.Input]
  ensures[unknown-input] !keys(inputs)[config.Input] ==> err != nil
  modifies nothing

func output.NewJsonObject ! config inputs def indexes parsers -> o err
  prop C18 C23
  requires[configured] config != nil && relsValid() && (forall k: string :: {keys(config.Relationships)[k]} keys(config.Relationships)[k] ==> vals(config.Relationships)[k] != nil) && (forall n: string :: {keys(config.Parameters)[n]} keys(config.Parameters)[n] ==> vals(config.Parameters)[n] != nil)
  ensures[configured-parts] err == nil ==> o != nil && fresh(o) && o.config == config && o.inputs == inputs && o.defaultIndex == def && o.indexes == indexes && keys(inputs)[config.Input] && o.input == vals(inputs)[config.Input]
  ensures[own-parsers] err == nil ==> forall n: string :: {keys(config.Parameters)[n]} keys(config.Parameters)[n] ==> keys(o.paramParsers)[n] && keys(parsers)[vals(config.Parameters)[n].Parser] && vals(o.paramParsers)[n] == vals(parsers)[vals(config.Parameters)[n].Parser]
  ensures[unknown-input] !keys(inputs)[config.Input] ==> err != nil
  invariant paramParsers != nil && fresh(paramParsers) && allocated(paramParsers)
  invariant forall n: string :: {keys(config.Parameters)[n]} keys(config.Parameters)[n] && visited(n) ==> keys(paramParsers)[n] && keys(parsers)[vals(config.Parameters)[n].Parser] && vals(paramParsers)[n] == vals(parsers)[vals(config.Parameters)[n].Parser]
  modifies nothing
