# Files read through a reader, a buffer and a row reader. readPos[f]: offset at which the file reader f continues;
# bufLeft[b]: bytes the buffer has read ahead of what was taken from it. Another request may move both whenever a lock is taken or released.
ghost readPos [any]int
ghost bufLeft [int]int
ghost bufFrom [int]any
ghost rowsFrom [int]any
ghost locked [int]bool
logic contentOf(any) int
logic fileContent(string) int
extern (*sync.Mutex).Lock ! m
  requires[not-twice] !locked[m]
  ensures locked[m]
  modifies locked[m], readPos, bufLeft
extern (*sync.Mutex).Unlock ! m
  requires[held] locked[m]
  ensures !locked[m]
  modifies locked[m], readPos, bufLeft
extern os.Open ! path -> f err
  ensures err == nil ==> f != nil && fresh(f) && contentOf(f) == fileContent(path) && readPos[box(f)] == 0
  ensures forall g: any :: {readPos[g]} g != box(f) ==> readPos[g] == old(readPos[g])
  modifies readPos
iface io.ReadSeeker.Seek ! f off whence -> pos err
  requires[reader] f != nil
  ensures err == nil && whence == 0 ==> readPos[f] == off && pos == off
  ensures err == nil && whence == 1 ==> readPos[f] == old(readPos[f]) + off && pos == readPos[f]
  modifies readPos[f], ioErr
extern bufio.NewReader ! f -> b
  ensures b != nil && fresh(b) && bufLeft[b] == 0 && bufFrom[b] == f
extern (*bufio.Reader).Buffered ! b -> n
  requires[buffer] b != nil
  ensures n == bufLeft[b] && n >= 0
  opt pure
extern (*bufio.Reader).Reset ! b f
  requires[buffer] b != nil
  ensures bufLeft[b] == 0 && bufFrom[b] == f
  modifies bufLeft[b], bufFrom[b]

# Rows: csvRow(content, comma, at, i) is field i of the row that starts at offset at; csvNext is where the next one starts.
logic csvKind(int, int, int) int
logic csvNext(int, int, int) int
logic csvLen(int, int, int) int
logic csvRow(int, int, int, int) string
extern encoding/csv.NewReader ! f -> r
  ensures r != nil && fresh(r) && rowsFrom[r] == f
macro rowBuf(r: *encoding/csv.Reader): *bufio.Reader = as(rowsFrom[r], "*bufio.Reader")
macro rowFile(r: *encoding/csv.Reader): any = bufFrom[rowBuf(r)]
macro rowAt(r: *encoding/csv.Reader): int = readPos[rowFile(r)] - bufLeft[rowBuf(r)]
macro rowText(r: *encoding/csv.Reader): int = contentOf(rowFile(r))
macro fieldCountErr(e: any): bool = errIs(e, @"encoding/csv.ErrFieldCount")
extern (*encoding/csv.Reader).Read ! r -> row err
  requires[rows] r != nil && is(rowsFrom[r], "*bufio.Reader")
  ensures !r.ReuseRecord ==> fresh(row)
  ensures err == nil || fieldCountErr(err) && err != @"io.EOF" ==> csvKind(rowText(r), r.Comma, old(rowAt(r))) == 0 && len(row) == csvLen(rowText(r), r.Comma, old(rowAt(r))) && len(row) >= 1 && off(row) == 0 && (forall i: int :: {elems(row)[i]} 0 <= i && i < len(row) ==> elems(row)[i] == csvRow(rowText(r), r.Comma, old(rowAt(r)), i)) && rowAt(r) == csvNext(rowText(r), r.Comma, old(rowAt(r)))
  ensures err == @"io.EOF" <==> csvKind(rowText(r), r.Comma, old(rowAt(r))) == 1
  ensures err == @"io.EOF" ==> !fieldCountErr(err)
  ensures err != nil ==> comparable(err)
  modifies readPos[bufFrom[as(rowsFrom[r], "*bufio.Reader")]], bufLeft[as(rowsFrom[r], "*bufio.Reader")], ioErr

func util.GetBufferedReaderOffset ! f b -> pos err
  prop C11
  requires[reader] f != nil && b != nil
  ensures[next-unread-byte] err == nil ==> pos == readPos[f] - bufLeft[b] && readPos[f] == old(readPos[f])
  modifies readPos[f], ioErr

func util.SetBufferedReaderOffset ! f b offset -> err
  prop C11
  requires[reader] f != nil && b != nil
  ensures[continues-there] err == nil ==> readPos[f] == offset && bufLeft[b] == 0 && bufFrom[b] == f
  ensures[same-source] bufFrom[b] == f || bufFrom[b] == old(bufFrom[b])
  modifies readPos[f], bufLeft[b], bufFrom[b], ioErr

# An open csv input: its row reader reads its buffer, which reads its file.
macro csvOpen(c: *input.Csv): bool = c != nil && c.config != nil && c.reader != nil && c.readerBuffer != nil && c.csvReader != nil && rowsFrom[c.csvReader] == box(c.readerBuffer) && bufFrom[c.readerBuffer] == c.reader && !c.csvReader.ReuseRecord && c.config.Logger != nil
macro csvRowIs(rec: any, c: *input.Csv, content: int, comma: int, at: int): bool = is(rec, "*input.CsvRecord") && as(rec, "*input.CsvRecord") != nil && as(rec, "*input.CsvRecord").position == at && as(rec, "*input.CsvRecord").config == c.config && as(rec, "*input.CsvRecord").columnParsers == c.columnParsers && len(as(rec, "*input.CsvRecord").data) == csvLen(content, comma, at) && forall i: int :: {elems(as(rec, "*input.CsvRecord").data)[i]} off(as(rec, "*input.CsvRecord").data) <= i && i < off(as(rec, "*input.CsvRecord").data) + len(as(rec, "*input.CsvRecord").data) ==> elems(as(rec, "*input.CsvRecord").data)[i] == csvRow(content, comma, at, i - off(as(rec, "*input.CsvRecord").data))

guarded input.Csv.reader by readerLock
guarded input.Csv.readerBuffer by readerLock
guarded input.Csv.csvReader by readerLock

func (*input.Csv).Get ! c position -> rec err
  prop C11 C12
  requires[open] csvOpen(c) && !locked[&c.readerLock]
  ensures[the-row-at-the-position] err == nil ==> csvRowIs(rec, c, contentOf(c.reader), c.csvReader.Comma, position)
  ensures[no-record-on-error] err != nil ==> rec == nil
  ensures[released] !locked[&c.readerLock]
  ensures[still-open] csvOpen(c)
  modifies readPos, bufLeft, bufFrom[c.readerBuffer], ioErr, locked[&c.readerLock]

# the listing: each call returns the row where the previous one stopped, with its own position
logic listText(int) int
logic listComma(int) int
logic listStart(int) int
macro comma(c: *input.Csv): int = strrune(c.config.Delimiter, 0)
functype func()(input/record.Record,error) ! self -> found fail
  modifies readPos, bufLeft, ioErr, itErr, decAt
func (*input.Csv).IterateAll ! c -> it end err
  prop C11 C12
  requires[configured] c != nil && c.config != nil && c.config.Delimiter != "" && c.config.Logger != nil
  ensures[starts-at-the-first-record] err == nil ==> it != 0 && end != 0 && listText(it) == fileContent(c.config.Path) && listComma(it) == comma(c) && listStart(it) == (if c.config.IgnoreFirstRow then csvNext(listText(it), listComma(it), 0) else 0)
  modifies readPos, bufLeft, ioErr
  closure self func()(input/record.Record,error) +csvReader +reader +readerBuffer
    define listText(self) == rowText(csvReader) && listComma(self) == csvReader.Comma && listStart(self) == rowAt(csvReader)
    closureinv[own-reader] csvReader != nil && readerBuffer != nil && reader != nil && csvInput != nil && csvInput.config != nil && csvInput.config.Logger != nil && rowsFrom[csvReader] == box(readerBuffer) && bufFrom[readerBuffer] == reader && !csvReader.ReuseRecord && listText(self) == contentOf(reader) && listComma(self) == csvReader.Comma
    assert[the-row-at-the-position] fail == nil && found != nil ==> csvRowIs(found, csvInput, listText(self), listComma(self), old(rowAt(csvReader)))
    assert[continues-behind-it] fail == nil && found != nil ==> rowAt(csvReader) == csvNext(listText(self), listComma(self), old(rowAt(csvReader)))
    assert[all-rows] fail == nil && found == nil ==> csvKind(listText(self), listComma(self), old(rowAt(csvReader))) == 1
    assert[errors-are-errors] fail != nil ==> found == nil

# JSON documents: jsonKeys/jsonVals(content, at) is the object that starts at offset at, jsonNext where the next one starts
logic jsonMore(int, int) bool
logic jsonKind(int, int) int
logic jsonNext(int, int) int
logic jsonKeys(int, int) [string]bool
logic jsonVals(int, int) [string]any
ghost decFrom [int]any
ghost decBase [int]int
ghost decAt [int]int
extern encoding/json.NewDecoder ! f -> d
  requires[reader] f != nil
  ensures d != nil && fresh(d) && decFrom[d] == f && decBase[d] == readPos[f] && decAt[d] == readPos[f]
extern (*encoding/json.Decoder).More ! d -> r
  requires[decoder] d != nil
  ensures r <==> jsonMore(contentOf(decFrom[d]), decAt[d])
  modifies readPos[decFrom[d]]
extern (*encoding/json.Decoder).InputOffset ! d -> r
  requires[decoder] d != nil
  ensures r == decAt[d] - decBase[d]
  opt pure
extern (*encoding/json.Decoder).Decode ! d v -> err
  requires[decoder] d != nil && is(v, "*map[string]any") && as(v, "*map[string]any") != nil
  ensures err == nil <==> jsonKind(contentOf(decFrom[d]), old(decAt[d])) == 0
  ensures err == @"io.EOF" <==> jsonKind(contentOf(decFrom[d]), old(decAt[d])) == 1
  ensures err == nil ==> keys(*as(v, "*map[string]any")) == jsonKeys(contentOf(decFrom[d]), old(decAt[d])) && vals(*as(v, "*map[string]any")) == jsonVals(contentOf(decFrom[d]), old(decAt[d])) && decAt[d] == jsonNext(contentOf(decFrom[d]), old(decAt[d]))
  ensures err != nil ==> comparable(err)
  modifies decAt[d], readPos[decFrom[d]], cell(as(v, "*map[string]any"))

macro jsonDocIs(rec: any, c: *input.Json, content: int, at: int): bool = is(rec, "*input.JsonRecord") && as(rec, "*input.JsonRecord") != nil && as(rec, "*input.JsonRecord").position == at && as(rec, "*input.JsonRecord").config == c.config && keys(as(rec, "*input.JsonRecord").data) == jsonKeys(content, at) && vals(as(rec, "*input.JsonRecord").data) == jsonVals(content, at)
guarded input.Json.reader by readerLock
func (*input.Json).Get ! c position -> rec err
  prop C11 C12
  requires[open] c != nil && c.reader != nil && !locked[&c.readerLock]
  ensures[the-document-at-the-position] err == nil ==> jsonDocIs(rec, c, contentOf(c.reader), position)
  ensures[no-record-on-error] err != nil ==> rec == nil
  ensures[released] !locked[&c.readerLock]
  modifies readPos, bufLeft, ioErr, locked[&c.readerLock], decAt, decFrom, decBase

func (*input.Json).IterateAll ! c -> it end err
  prop C11 C12
  requires[configured] c != nil && c.config != nil
  ensures[starts-at-the-first-record] err == nil ==> it != 0 && end != 0 && listText(it) == fileContent(c.config.Path) && listStart(it) == 0
  modifies readPos, decAt, ioErr
  closure self func()(input/record.Record,error) +jsonDecoder
    define listText(self) == contentOf(decFrom[jsonDecoder]) && listStart(self) == decAt[jsonDecoder]
    closureinv[own-reader] jsonDecoder != nil && jsonInput != nil && listText(self) == contentOf(decFrom[jsonDecoder]) && decBase[jsonDecoder] == 0
    assert[the-document-at-the-position] fail == nil && found != nil ==> jsonDocIs(found, jsonInput, listText(self), old(decAt[jsonDecoder]))
    assert[continues-behind-it] fail == nil && found != nil ==> decAt[jsonDecoder] == jsonNext(listText(self), old(decAt[jsonDecoder]))
    assert[all-documents] fail == nil && found == nil ==> !jsonMore(listText(self), old(decAt[jsonDecoder])) || jsonKind(listText(self), old(decAt[jsonDecoder])) == 1
    assert[errors-are-errors] fail != nil ==> found == nil

# XML: nothing is read outside the lock, and the record has the requested position
guarded input.Xml.reader by readerLock
guarded input.Xml.readerBuffer by readerLock
guarded input.Xml.checkpoints by readerLock
extern sort.Search ! n f -> i
  ensures 0 <= i && (n >= 0 ==> i <= n)
  opt pure
ghost xmlAt [int]int
extern encoding/xml.NewDecoder ! f -> d
  ensures d != nil && fresh(d) && xmlAt[d] == 0
extern (*encoding/xml.Decoder).InputOffset ! d -> n
  requires[decoder] d != nil
  ensures n == xmlAt[d] && n >= 0
  opt pure
extern (*encoding/xml.Decoder).RawToken ! d -> t err
  requires[decoder] d != nil
  ensures xmlAt[d] >= old(xmlAt[d])
  ensures err != nil ==> comparable(err)
  modifies xmlAt[d], readPos, bufLeft, ioErr
extern bytes.Join ! s sep -> r
  ensures fresh(r) || len(r) == 0
extern bytes.NewReader ! b -> r
  ensures r != nil && fresh(r)
extern io.MultiReader ! rs -> r
  ensures r != nil
extern github.com/antchfx/xmlquery.CreateStreamParserWithOptions ! f o path filters -> p err
  ensures err == nil ==> p != nil && fresh(p)
extern (*github.com/antchfx/xmlquery.StreamParser).Read ! p -> n err
  requires[parser] p != nil
  ensures err != nil ==> comparable(err)
  ensures err == nil ==> n != nil
  modifies readPos, bufLeft, ioErr
macro checkpointsOk(c: *input.Xml): bool = forall a: int :: {elems(c.checkpoints)[a]} off(c.checkpoints) <= a && a < off(c.checkpoints) + len(c.checkpoints) ==> len(elems(c.checkpoints)[a].names) == len(elems(c.checkpoints)[a].tags) && elems(c.checkpoints)[a].position >= 0
macro xmlOpen(c: *input.Xml): bool = c != nil && c.config != nil && c.reader != nil && c.readerBuffer != nil && c.xmlFile != nil && @"input.xmlParserOptions".Decoder != nil && checkpointsOk(c)
func (*input.Xml).Get ! c position -> rec err
  prop C11 C12
  requires[open] xmlOpen(c) && !locked[&c.readerLock]
  ensures[own-record] err == nil ==> is(rec, "*input.XmlRecord") && as(rec, "*input.XmlRecord") != nil && as(rec, "*input.XmlRecord").position == position && as(rec, "*input.XmlRecord").config == c.config && as(rec, "*input.XmlRecord").parsers == c.parsers
  ensures[released] !locked[&c.readerLock]
  ensures[still-open] xmlOpen(c)
  modifies readPos, bufLeft, bufFrom[c.readerBuffer], ioErr, locked[&c.readerLock], fh("input.Xml","checkpoints"), eh("input.xmlCheckpoint"), xmlAt

func (*input.Xml).getParentTags ! c position -> tags err
  prop C11 C12
  requires[open] xmlOpen(c) && locked[&c.readerLock]
  ensures[still-open] xmlOpen(c)
  ensures[still-held] locked[&c.readerLock]
  opt trusted
  modifies readPos, bufLeft, bufFrom[c.readerBuffer], ioErr, fh("input.Xml","checkpoints"), eh("input.xmlCheckpoint"), xmlAt
