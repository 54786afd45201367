# Comparison of two parsed values, and the lexicographic order of records.
macro cmpOk(a: any, b: any): bool = is(a,"string") && is(b,"string") || is(a,"int64") && is(b,"int64") || is(a,"float64") && is(b,"float64") || is(a,"bool") && is(b,"bool")
macro valLt(a: any, b: any): bool = if is(a,"string") then as(a,"string") < as(b,"string") else if is(a,"int64") then as(a,"int64") < as(b,"int64") else if is(a,"float64") then as(a,"float64") < as(b,"float64") else !as(a,"bool") && as(b,"bool")
macro valEq(a: any, b: any): bool = goeq(a, b)

func parser.Compare ! a b -> r err
  prop C16
  ensures[comparable] err == nil <==> cmpOk(a, b)
  ensures[error-no-answer] err != nil ==> r == nil
  ensures[equal] err == nil ==> (r == nil <==> valEq(a, b))
  ensures[order] err == nil && r != nil && (is(a,"float64") ==> flteq(as(a,"float64"), as(a,"float64")) && flteq(as(b,"float64"), as(b,"float64"))) ==> (*r <==> valLt(a, b)) && (!*r <==> valLt(b, a))
  opt pure

func (*input/record.SortConfig).IsAscending ! c -> r
  prop C16
  ensures[default-ascending] r <==> (c.Ascending == nil || *c.Ascending)
  opt pure

macro key(s: *input/record.recordListSorter, i: int, k: int): any = recVal(s.records[i], s.config[k].Property)
macro sortable(s: *input/record.recordListSorter, i: int, j: int, k: int): bool = !recErr(s.records[i], s.config[k].Property) && !recErr(s.records[j], s.config[k].Property) && cmpOk(key(s,i,k), key(s,j,k)) && (is(key(s,i,k),"float64") ==> flteq(as(key(s,i,k),"float64"), as(key(s,i,k),"float64")) && flteq(as(key(s,j,k),"float64"), as(key(s,j,k),"float64")))
macro sameKey(s: *input/record.recordListSorter, i: int, j: int, k: int): bool = valEq(key(s,i,k), key(s,j,k))
macro ascKey(s: *input/record.recordListSorter, k: int): bool = s.config[k].Ascending == nil || *s.config[k].Ascending

func (*input/record.recordListSorter).Len ! s -> n
  prop C16
  ensures[all-records] n == len(s.records)
  opt pure

func (*input/record.recordListSorter).Less ! s i j -> r
  prop C16
  requires[in-list] 0 <= i && i < len(s.records) && 0 <= j && j < len(s.records)
  requires[records] s.records[i] != nil && s.records[j] != nil
  requires[configured] forall a: int :: {elems(s.config)[a]} off(s.config) <= a && a < off(s.config) + len(s.config) ==> elems(s.config)[a] != nil
  ensures[first-difference-decides] forall k: int :: 0 <= k && k < len(s.config) && (forall m: int :: {elems(s.config)[m]} off(s.config) <= m && m <= off(s.config) + k ==> sortable(s, i, j, m - off(s.config))) && (forall m: int :: {elems(s.config)[m]} off(s.config) <= m && m < off(s.config) + k ==> sameKey(s, i, j, m - off(s.config))) && !sameKey(s, i, j, k) ==> (r <==> (if ascKey(s, k) then valLt(key(s,i,k), key(s,j,k)) else valLt(key(s,j,k), key(s,i,k))))
  ensures[equal-unordered] (forall m: int :: {elems(s.config)[m]} off(s.config) <= m && m < off(s.config) + len(s.config) ==> sortable(s, i, j, m - off(s.config)) && sameKey(s, i, j, m - off(s.config))) ==> !r
  invariant forall m: int :: {elems(s.config)[m]} off(s.config) <= m && m <= off(s.config) + rangeindex && sortable(s, i, j, m - off(s.config)) ==> sameKey(s, i, j, m - off(s.config))
  modifies itErr

func (*input/record.recordListSorter).Swap ! s i j
  prop C16
  requires[in-list] 0 <= i && i < len(s.records) && 0 <= j && j < len(s.records)
  ensures[swapped] s.records[i] == old(s.records[j]) && s.records[j] == old(s.records[i])
  ensures[others-stay] forall a: int :: {elems(s.records)[a]} a != off(s.records) + i && a != off(s.records) + j ==> elems(s.records)[a] == old(elems(s.records)[a])
  ensures[list] s.records == old(s.records)
  modifies elems(s.records)

# sort.Sort permutes the whole list it is given (assumed of the standard library, which only uses Len, Less and Swap)
logic sortedOf([int]any, int, int, int) [int]any
logic sortedFrom([int]any, int, int, int, int) int
axiom sorted-same{sortedOf} forall a: [int]any; o, n, c, i: int :: {sortedOf(a,o,n,c)[i]} o <= i && i < o + n ==> o <= sortedFrom(a,o,n,c,i) && sortedFrom(a,o,n,c,i) < o + n && sortedOf(a,o,n,c)[i] == a[sortedFrom(a,o,n,c,i)]
extern sort.Sort<*input/record.recordListSorter> ! s
  requires[sorter] s != nil
  requires[records] forall a: int :: {elems(s.records)[a]} off(s.records) <= a && a < off(s.records) + len(s.records) ==> elems(s.records)[a] != nil
  requires[configured] forall a: int :: {elems(s.config)[a]} off(s.config) <= a && a < off(s.config) + len(s.config) ==> elems(s.config)[a] != nil
  ensures s.records == old(s.records) && s.config == old(s.config)
  ensures elems(s.records) == sortedOf(old(elems(s.records)), off(s.records), len(s.records), base(s.config))
  modifies elems(s.records), itErr
func (input/record.List).Sort ! records config -> r
  prop C16
  requires[records] forall a: int :: {elems(records)[a]} off(records) <= a && a < off(records) + len(records) ==> elems(records)[a] != nil
  requires[configured] forall a: int :: {elems(config)[a]} off(config) <= a && a < off(config) + len(config) ==> elems(config)[a] != nil
  ensures[same-list-sorted] r == records && elems(r) == sortedOf(old(elems(records)), off(records), len(records), base(config))
  modifies elems(records), itErr
