claims = {
 "C01": ("proof", "Every method of Stream (NewStream, Flush, Get, Add, Replace) is verified for all inputs against a byte-array view (disk content below bufferOffset, buffer above), including its loops, bounds and frame."),
 "C07": ("proof", "Map.GetRecordPositions and DoesHandleProperty are verified for all inputs: one ascending sequence per filter, joined by the proved intersection, refusals, no panic. Building the map from the input (reindex, addValueToIndex) is only covered by the bounded replay: the invariant of the stored lists is assumed by the query contract."),
 "C08": ("proof", "Noop.GetRecordPositions and the iterator it returns are verified for every input and call history: it yields exactly the next matching record, keeps reporting its end, reports errors, and no comparison panics."),
 "C10": ("proof", "JoinPositionIterators, PositionList.Iterate, EmptyIterator and their closures are verified for every number and content of sequences and every call history."),
 "C15": ("proof", "The Parse methods, RemoveCharacters, IsInArray and the constructors are verified for all texts against the documented settings; strconv, strings, regexp and encoding/json are assumed contracts."),
 "C17": ("proof", "getLimit, getOffset and the whole of JsonArray.Handle (page loop with invariant) are verified: offset records are skipped, then at most the limit are returned, in the iterator's order; bad values are refused. The input, index, parser and encoder behind the interfaces are assumed contracts."),
 "C18": ("proof", "getFiltersPerIndex, getRouteFiltersPerIndex, getFilteredRecordPositionsPerIndex and both Handle methods are verified: each request parameter becomes exactly its filter, unknown parameters change nothing, failures are answered with an error. Index answers are an assumed interface contract."),
 "C19": ("proof", "loadRelationships, getRelationshipFiltersPerIndex, getDataFromPosition and checkRelationshipMatches are verified: which records are attached, how many, object or list, under which name, other properties untouched. The content of the items of an attached list is covered by the bounded replay only."),
 "C16": ("proof", "Every Compare method and the record sorter (Less, Swap, Len, List.Sort) are verified for all records; sort.Sort is an assumed contract."),
"C20": ("proof", "NewHttp's route compilation (createPathRegexp), getMatchingRoute and the handler's parameter assembly are verified against assumed contracts of regexp: placeholders and literal text in order, first matching route, each placeholder's text under its own name and before the query."),
 "C21": ("proof", "getHandlerFunc with its closures, sendErrorResponse, sendJson and both Handle methods are verified: exactly one answer on every path, its status, type and a single document. net/http and encoding/json are assumed contracts."),
 "C11": ("proof", "Csv.Get/IterateAll, Json.Get/IterateAll and their closures, Xml.Get, the buffered reader offset helpers, record constructors and Position are verified: both give the row or document of the file content at the position. encoding/csv, encoding/json and bufio are assumed contracts; the reconstruction of the parents of an XML record (getParentTags, IterateAll of Xml) is covered by the bounded replay."),
 "C12": ("proof", "Every access to the shared reader, buffer and row reader of a csv, json or xml input is proved to happen under its lock, which is proved released on every return path; the state may change arbitrarily at every lock operation. Parsers, XPath state and iterators of indexes are covered by the bounded concurrent replay (race detector for inputs and parsers)."),
 "C13": ("proof", "GetSubValue, JsonRecord.Get/All/getSubValue, CsvRecord.Get and the XmlRecord accessors are verified for all values and paths against the recursive definition of following a path. The agreement of XML sub-paths with the complete record below one level is covered by the bounded replay."),
 "C14": ("proof", "CsvRecord (getColumn, All, Get) and XmlRecord (getAllValues, arrays, objects, handle* functions, All, Get) are verified: own column or node, own parser, errors reported, missing columns. XPath evaluation is an assumed contract; nested values are specified one level deep, deeper levels and the header detection are covered by the bounded replay."),
}
notapp = {}
