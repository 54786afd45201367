#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=None)))
W='pkg/index/wildcard/'
p('C01','Index file store returns the last bytes written',
 'The byte store behind the wildcard index behaves like one growing byte array: reading any range returns exactly the bytes last written there, appending places the data at the current end and returns that offset, and overwriting changes only the targeted range. This holds wherever the boundary between what is already on disk and what is still buffered lies, including ranges that straddle it, and flushing never changes what is read.',
 ['inputs','histories'],'every sequence of add / replace / get / flush with any offsets, lengths and buffer thresholds',
 'Tests use a handful of fixed ranges and buffer positions; the disk/buffer split depends on the whole write history.',
 [W+'stream.go'],[('Stream.Get / Add / Replace / Flush',W+'stream.go')],
 [('buffer, bufferOffset, streamSize','bytes [bufferOffset,streamSize) live in memory, the rest on disk',W+'stream.go')],['Stream.Get','index file content'])
p('C02','Index file structures survive a write and read back',
 'Every tree node, position entry and metadata block of the wildcard index that is saved is read back with exactly the same field values, at the offset it was saved at, and saving one of them does not alter any other. Two different fields never share bytes.',
 ['inputs','histories'],'all field values over the full 64-bit range and all offsets',
 'Round trips are only sampled with a few small values.',
 [W+'node.go',W+'position.go',W+'metadata.go'],[('Serialize/Unserialize/Save/Get of TreeNode, PositionLinkedList, Metadata',W)],(),['GetTreeNode','GetPositionLinkedList','LoadMetadata'])
p('C03','Stored position lists keep every position in order',
 'A position list written to the wildcard index and then iterated yields exactly the positions it was built from, in the same order, and then keeps reporting its end. Copying a list yields an independent list with the same content and leaves the original untouched; appending to the end adds the position once and keeps everything before it.',
 ['inputs','histories'],'all list lengths and contents, any state of the store',
 'Tests only use lists of two or three entries.',
 [W+'position.go',W+'node.go'],[('NewPositionLinkedListFromArray, Iterate, Copy, AppendPositionIfNotExists',W+'position.go')],(),['PositionLinkedList.Iterate'])
p('C04','Wildcard search finds exactly the containing records',
 'Searching a wildcard index for a non-empty string returns every record whose indexed property contains that string (ignoring case when so configured; for list values, when any element contains it) and no other record. Positions come back in strictly increasing order without duplicates, for any mix of records already indexed.',
 ['inputs','histories'],'all sets of records, property values (any bytes) and search strings',
 'The tree is restructured differently for every insertion history; tests contain a few hand-picked words.',
 ['pkg/index/wildcard.go',W+'node.go'],[('addSequence / AddAllSequences / FindChildByPrefix / GetSequence',W+'node.go'),('addValueToIndex, GetRecordPositions','pkg/index/wildcard.go')],(),['Wildcard.GetRecordPositions'])
p('C05','A stale or unfinished wildcard index file is never used',
 'An existing wildcard index file is accepted only if it is a wildcard index of the current format version, was completely built, and was built for an input of the same size and modification time, with the same ignore-case setting and the same number of properties; otherwise starting fails with an error rather than a crash. A file is marked complete only after everything it indexes has been written to it, so an interruption at any moment of the build leaves a file that is rejected.',
 ['crash_points','inputs','configurations'],'every prefix of the sequence of file writes of a build; every metadata content',
 'Tests never interrupt a build and try only one mismatch at a time.',
 [W+'metadata.go','pkg/index/wildcard.go'],[('Metadata.AssertValid, Save, SetCompleted',W+'metadata.go'),('createIndex/loadIndex','pkg/index/wildcard.go')],
 [('completed flag','written last','metadata.go')],['NewWildcard'])
p('C06','A stale or unfinished SQL index is never used',
 'An index already present in the SQLite database (plain or full text) is reused only if its recorded format version, input size and input modification time equal the current ones and it was marked complete; otherwise starting fails with an error. The complete mark is saved only after every record of the input has been inserted without error.',
 ['crash_points','inputs','configurations'],'every metadata content and every point where the build can stop or fail',
 'Tests check one mismatch at a time and never a failing insert.',
 ['pkg/index/sqlite/metadata.go','pkg/index/sqlite.go','pkg/index/fts5.go'],[('Metadata.AssertValid/LoadMetadata/Save','pkg/index/sqlite/metadata.go'),('createIndex','pkg/index/sqlite.go, pkg/index/fts5.go')],(),['NewSqlite','NewFts5'])
p('C07','Map index returns exactly the matching records',
 'A map index query returns exactly the positions of the records for which every filtered property equals the filter value (for a list value: one of its elements does), in increasing order without duplicates. A query without filters, for another input or on a property that is not indexed is refused with an error, and no value or filter makes it crash.',
 ['inputs','histories'],'all record contents, filter sets and filter values',
 'Tests use two or three records with single values.',
 ['pkg/index/map.go','pkg/input/record/join.go'],[('reindex/addValueToIndex/GetRecordPositions','pkg/index/map.go')],(),['Map.GetRecordPositions'])
p('C08','Unindexed filtering returns exactly the matching records',
 'The noop index (also the default one) yields, in file order, exactly the positions of the records of which every filtered property equals its filter value, and all records when there is no filter; an absent value matches only an absent filter. After the end it keeps reporting the end, an error is reported instead of a wrong answer, and no combination of value types makes it crash.',
 ['inputs','histories'],'all record sequences, filter sets and value types',
 'Tests use a few rows of strings.',
 ['pkg/index/noop.go'],[('Noop.GetRecordPositions','pkg/index/noop.go')],(),['Noop.GetRecordPositions'])
p('C09','SQL index queries apply every filter and depend on nothing else',
 'A query on a SQLite index returns the positions of exactly the indexed records equal to the filter on every filtered property, and a full text query those matching the expression; each value is passed as data, never as SQL. The answer does not depend on earlier queries, including ones whose results were only partly consumed, and a query leaves no database resource in use once its iterator has been returned and abandoned.',
 ['inputs','histories','schedules'],'all filters and every history of complete and abandoned queries',
 'Tests run one fully consumed query per index.',
 ['pkg/index/sqlite.go','pkg/index/fts5.go','pkg/index/sqlite/sanitize.go','pkg/index/sqlite/open.go'],[('GetRecordPositions','pkg/index/sqlite.go, pkg/index/fts5.go')],(),['Sqlite.GetRecordPositions','Fts5.GetRecordPositions'])
p('C10','Joining filtered results is an exact ordered intersection',
 'Combining several ascending position sequences yields exactly the positions present in all of them, each once and in ascending order, then keeps reporting the end; with one sequence it is that sequence and with none it is empty. An error from any of them is reported.',
 ['inputs','histories'],'any number of strictly ascending sequences of any length',
 'Tests use a few small fixed lists.',
 ['pkg/input/record/join.go','pkg/input/record/record.go'],[('JoinPositionIterators','pkg/input/record/join.go'),('PositionList.Iterate','pkg/input/record/record.go')],(),['JoinPositionIterators'])
p('C11','Fetching a listed position returns the same record',
 'For every input, reading the record at a position obtained while listing the file gives the same data and the same position as the listing did, whatever other reads happened before, in any order. The listing visits every record of the file once, from the smallest to the largest position, honouring the skipped first row.',
 ['inputs','histories'],'all files and all orders of random-access reads',
 'Tests read a few positions in file order.',
 ['pkg/input/csv.go','pkg/input/json.go','pkg/input/xml.go','pkg/util/bufio.go'],[('Get / IterateAll','pkg/input/*.go'),('Get/SetBufferedReaderOffset','pkg/util/bufio.go')],(),['Input.Get','Input.IterateAll'])
p('C12','Concurrent requests never mix up shared reader state',
 'An input may be read by many requests at once: its shared file reader, buffer and parser are only ever used by one request at a time, are released on every outcome, and each request gets the record it asked for. Value parsers and iterators keep no state shared between requests.',
 ['schedules'],'every interleaving of concurrent reads, parses and listings',
 'Tests are sequential.',
 ['pkg/input/csv.go','pkg/input/json.go','pkg/input/xml.go','pkg/parser/string.go'],[('readerLock','pkg/input/*.go')],
 [('reader, readerBuffer, csvReader, xmlParser','guarded by readerLock','pkg/input')],['Input.Get','Parser.Parse'])
p('C13','Reading a path equals descending into the full record',
 'Reading a dotted path from a CSV, JSON or XML record gives the value found by following that path step by step through the complete record: object keys by name, list elements by index. A missing key or any index outside the list (negative included) gives no value, going below a primitive is an error, and no path makes it crash.',
 ['inputs'],'all record contents and all path strings',
 'Tests cover a few shallow paths.',
 ['pkg/input/record/path.go','pkg/input/json_record.go','pkg/input/csv_record.go','pkg/input/xml_record.go'],[('GetSubValue / getSubValue','pkg/input')],(),['Record.Get','Record.All'])
p('C14','Record values come from their configured column or node',
 'Each property of a CSV or XML record is the value its own configured parser gives for its own column or selected node: columns are matched by position, a missing trailing column gives no value, and automatically detected columns take their names in header order. A parse failure is reported as an error and never as another value.',
 ['inputs','configurations'],'all column/property configurations and row lengths',
 'Tests use fixed three column files.',
 ['pkg/input/csv_record.go','pkg/input/csv.go','pkg/input/xml_record.go'],[('getColumn, autodetectColumns, getAllValues, handle*Value','pkg/input')],(),['Record.All','Record.Get'])
p('C15','Parsers decode text exactly as configured',
 'The integer and float parsers drop exactly the configured ignored characters (and translate the decimal separator) and return the 64-bit number the remaining text denotes, the boolean parser returns true or false exactly for its configured texts, the string parser returns the text unchanged unless a charset is configured, and the split parser returns the parsed pieces, all of them, in order. Any other text is an error.',
 ['inputs','configurations'],'all texts and parser configurations',
 'Tests list a few texts per parser.',
 ['pkg/parser/','pkg/util/utils.go'],[('Parse','pkg/parser'),('RemoveCharacters, IsInArray','pkg/util/utils.go')],(),['Parser.Parse'])
p('C16','Sorting follows the configured keys lexicographically',
 'Two records are ordered by the first sort key on which their values differ, ascending or descending as configured for that key, with strings, integers, floats (except NaN) and booleans in their natural order; records equal on all keys are not ordered either way. Sorting returns the same records, reordered.',
 ['inputs','configurations'],'all value pairs of the same type and all key lists',
 'Tests compare a few values.',
 ['pkg/parser/parser.go','pkg/input/record/sort.go'],[('Compare','pkg/parser/parser.go'),('recordListSorter','pkg/input/record/sort.go')],(),['List.Sort','parser.Compare'])
p('C17','Paging returns the requested slice of the results',
 'A JSON list response contains, in order, the results left after skipping offset ones, at most limit of them and never more than the configured maximum; without parameters the offset is zero and the limit the configured default. A limit that is not a positive number or an offset that is negative or not a number is answered with an error, and pages neither overlap nor miss results.',
 ['inputs','configurations'],'all limit/offset texts, defaults, maxima and result lengths',
 'Tests use one or two pages.',
 ['pkg/output/json_array.go'],[('Handle/getLimit/getOffset','pkg/output/json_array.go')],(),['JsonArray.Handle'])
p('C18','Every request parameter becomes exactly its configured filter',
 'For each configured parameter present in the request, its value as decoded by its parser filters its configured property in its configured index; no configured parameter is dropped, and unconfigured ones have no effect. The records returned satisfy all filters of all indexes together, the default index is used without filters when there is none, and an undecodable value or unknown index is an error; the single-object output returns the first match or a not-found error.',
 ['inputs','configurations'],'all parameter configurations and requests',
 'Tests use one or two parameters.',
 ['pkg/output/json_array.go','pkg/output/json_object.go','pkg/output/json_common.go'],[('getFiltersPerIndex, getRouteFiltersPerIndex, getFilteredRecordPositionsPerIndex','pkg/output')],(),['Output.Handle'])
p('C19','Relationships attach exactly the matching records',
 'For every configured relationship, at any nesting depth, the output holds under its name the records of the related input whose match properties equal the parent record\'s values: a list (sorted as configured, cut to the limit, zero meaning all) or, when not a list, the first one or null. The other properties of the record are unchanged, and a missing parent property, input or index is an error.',
 ['inputs','configurations'],'all relationship configurations and data',
 'Tests use one or two relationships with small data.',
 ['pkg/output/json_common.go'],[('loadRelationships, getRelationshipFiltersPerIndex, getDataFromPosition','pkg/output/json_common.go')],(),['Output.Handle'])
p('C20','Routes match their literal path and extract named parameters',
 'A route matches a request path only if all of its literal text appears verbatim and each placeholder stands for text of the form its parser reads; the text of each placeholder is handed over under that placeholder\'s own name, whichever parsers the placeholders use, and takes precedence over a query parameter of the same name. The first configured matching route wins.',
 ['inputs','configurations'],'all route paths, parser combinations and request paths',
 'Tests use a mock parser and plain literal paths.',
 ['pkg/service/http.go'],[('createPathRegexp, getMatchingRoute, getParams','pkg/service/http.go')],(),['HTTP request'])
p('C21','Each request gets exactly one well-formed answer',
 'An HTTP request is answered exactly once: 404 when no route matches or the record does not exist, 500 for any other error, both with a JSON error document, and 200 with one complete JSON document and the output\'s content type on success. An error is never answered as a success.',
 ['inputs','fault_sequences'],'all requests and all errors occurring while handling them',
 'Tests cover a success and a simple error.',
 ['pkg/service/http.go','pkg/output/json_array.go','pkg/output/json_object.go'],[('getHandlerFunc, sendErrorResponse','pkg/service/http.go'),('Handle','pkg/output')],(),['HTTP response'])
p('C22','An accepted configuration has no dangling or ambiguous reference',
 'If a configuration is accepted, every parser, input, index and output that any of its sections names exists, each index used for a parameter or relationship covers that input and property, names of columns, properties, filters and routes are unique where required, and documented defaults are filled in. A configuration that violates any of this is refused with an error instead of a crash, and documented settings are accepted.',
 ['configurations'],'all configurations',
 'Tests try one invalid field at a time.',
 ['pkg/config/config.go','pkg/input/csv_config.go','pkg/input/xml_config.go','pkg/index/','pkg/output/','pkg/service/http_config.go','pkg/parser/'],[('Validate','pkg/*/*_config.go')],(),['Config.Validate'])
p('C23','Configured objects are built under their own name and type',
 'Loading a configuration keeps every declared parser, input, index, output and service under its own name with its own settings and refuses two of the same kind with one name; the built-in parsers and the default index are added only when not declared. At startup each one is created by the implementation for its declared type, under that name, and the parts that need other parts are given exactly the configured ones.',
 ['configurations'],'all configurations',
 'Tests build one or two objects per kind.',
 ['pkg/config/config.go','pkg/parser/parser.go','pkg/input/input.go','pkg/index/index.go','pkg/output/output.go','pkg/service/service.go'],[('NewConfigFromParsedConfig, addDefaultConfigs','pkg/config/config.go'),('NewFromConfigs, Close','pkg/*')],(),['NewConfigFromYamlFile','NewFromConfigs'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80
print(len(P))
