# A CSV record: column i is the text data[i] read by the parser of column i; a missing trailing column has no value.
macro csvOk(r: *input.CsvRecord): bool = r != nil && r.config != nil && r.config.ColumnIndexByName != nil && len(r.columnParsers) == len(r.config.Columns) && (forall a: int :: {elems(r.config.Columns)[a]} off(r.config.Columns) <= a && a < off(r.config.Columns) + len(r.config.Columns) ==> elems(r.config.Columns)[a] != nil && keys(r.config.ColumnIndexByName)[elems(r.config.Columns)[a].Name] && vals(r.config.ColumnIndexByName)[elems(r.config.Columns)[a].Name] == a - off(r.config.Columns)) && (forall a: int :: {elems(r.columnParsers)[a]} off(r.columnParsers) <= a && a < off(r.columnParsers) + len(r.columnParsers) ==> elems(r.columnParsers)[a] != nil) && (forall k: string :: {keys(r.config.ColumnIndexByName)[k]} keys(r.config.ColumnIndexByName)[k] ==> 0 <= vals(r.config.ColumnIndexByName)[k] && vals(r.config.ColumnIndexByName)[k] < len(r.config.Columns) && r.config.Columns[vals(r.config.ColumnIndexByName)[k]].Name == k)
macro colFails(r: *input.CsvRecord, i: int): bool = i < len(r.data) && unparsable(r.columnParsers[i], r.data[i])
macro colValue(r: *input.CsvRecord, i: int): any = if i < len(r.data) then parsed(r.columnParsers[i], r.data[i]) else nil
macro isCol(r: *input.CsvRecord, k: string): bool = keys(r.config.ColumnIndexByName)[k]
macro colOf(r: *input.CsvRecord, k: string): int = vals(r.config.ColumnIndexByName)[k]

func (*input.CsvRecord).getColumn ! r columnName -> v err
  prop C14
  requires[configured] csvOk(r)
  ensures[unknown-column] !isCol(r, columnName) ==> err != nil
  ensures[parse-errors-are-errors] isCol(r, columnName) ==> (err == nil <==> !colFails(r, colOf(r, columnName)))
  ensures[own-column] err == nil ==> isCol(r, columnName) && v == colValue(r, colOf(r, columnName))
  ensures[no-value-on-error] err != nil ==> v == nil
  modifies nothing

func (*input.CsvRecord).All ! r -> m err
  prop C14
  requires[configured] csvOk(r)
  ensures[every-column] err == nil ==> m != nil && forall k: string :: {keys(m)[k]} keys(m)[k] <==> isCol(r, k)
  ensures[own-columns] err == nil ==> forall k: string :: {vals(m)[k]} isCol(r, k) ==> !colFails(r, colOf(r, k)) && vals(m)[k] == colValue(r, colOf(r, k))
  ensures[only-parse-errors] (forall k: string :: {isCol(r, k)} isCol(r, k) ==> !colFails(r, colOf(r, k))) ==> err == nil
  invariant result != nil && fresh(result)
  invariant forall k: string :: {keys(result)[k]} keys(result)[k] <==> isCol(r, k) && colOf(r, k) <= rangeindex
  invariant forall k: string :: {vals(result)[k]} keys(result)[k] ==> !colFails(r, colOf(r, k)) && vals(result)[k] == colValue(r, colOf(r, k))
  modifies nothing

func (*input.CsvRecord).Get ! r path -> v err
  prop C13 C14
  requires[configured] csvOk(r)
  ensures[empty-path] path == "" ==> err != nil
  ensures[unknown-column] !isCol(r, splitPart(path, ".", 0)) ==> err != nil
  ensures[descends-into-the-record] path != "" && isCol(r, splitPart(path, ".", 0)) ==> (err == nil <==> !colFails(r, colOf(r, splitPart(path, ".", 0))) && !belowFails(splitElems(path, "."), colValue(r, colOf(r, splitPart(path, ".", 0))), 1, splitCount(path, ".") - 1))
  ensures[value-at-the-path] err == nil ==> v == below(splitElems(path, "."), colValue(r, colOf(r, splitPart(path, ".", 0))), 1, splitCount(path, ".") - 1)
  modifies nothing

func (*input.CsvRecord).Position ! r -> p
  prop C11
  ensures[own-position] p == r.position
  opt pure

func input.NewCsvRecord ! config columnParsers data position -> r
  prop C11 C14
  ensures[own-data] r != nil && fresh(r) && r.data == data && r.position == position && r.config == config && r.columnParsers == columnParsers
  modifies nothing
