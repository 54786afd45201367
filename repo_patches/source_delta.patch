From f71d6264597e50f4ca19e56376705f788da448f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 01/23] fix: reject corrupt root counts in wildcard index
 metadata instead of panicking

---
 pkg/index/wildcard/metadata.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/index/wildcard/metadata.go b/pkg/index/wildcard/metadata.go
index c5596f4..ba6123a 100644
--- a/pkg/index/wildcard/metadata.go
+++ b/pkg/index/wildcard/metadata.go
@@ -156,11 +156,18 @@ func (metadata *Metadata) Unserialize(data io.Reader) error {
 	if err := binary.Read(data, binary.BigEndian, &rootNodeOffsetCount); err != nil {
 		return err
 	}
-	metadata.rootNodeOffsets = make([]TreeNodeOffset, int(rootNodeOffsetCount))
+	if rootNodeOffsetCount < 0 {
+		return fmt.Errorf("The index file has an invalid number of root nodes.")
+	}
+
+	// The count comes from the file, so the memory must only be allocated for what it really contains
+	metadata.rootNodeOffsets = make([]TreeNodeOffset, 0)
 	for i := int64(0); i < rootNodeOffsetCount; i++ {
-		if err := binary.Read(data, binary.BigEndian, &metadata.rootNodeOffsets[i]); err != nil {
+		var offset TreeNodeOffset
+		if err := binary.Read(data, binary.BigEndian, &offset); err != nil {
 			return err
 		}
+		metadata.rootNodeOffsets = append(metadata.rootNodeOffsets, offset)
 	}
 
 	return nil
-- 
2.43.0


From a401da20d36bdde941e6e5fd819ee7faac4c9f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 02/23] fix: index the elements of array values in the map
 index instead of crashing

---
 pkg/index/map.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index cc626a4..039bab9 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -101,11 +101,13 @@ func (mapIndex *Map) addValueToIndex(
 	position record.Position,
 ) error {
 	if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
-		for _, valueArrayValue := range valueArray {
+		for _, valueArrayValue := range distinctArrayValues(valueArray) {
 			if err := mapIndex.addValueToIndex(index, property, valueArrayValue, position); err != nil {
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	if _, valueIsMap := value.(map[string]interface{}); valueIsMap {
@@ -123,6 +125,31 @@ func (mapIndex *Map) addValueToIndex(
 	return nil
 }
 
+// Flattens the arrays contained in the given one, and removes the
+// duplicates, so that each value gets only indexed once for a record
+func distinctArrayValues(values []interface{}) []interface{} {
+	alreadyFound := make(map[interface{}]bool)
+	distinctValues := make([]interface{}, 0, len(values))
+	for _, value := range values {
+		subValues := []interface{}{value}
+		if valueArray, valueIsArray := value.([]interface{}); valueIsArray {
+			subValues = distinctArrayValues(valueArray)
+		}
+
+		for _, subValue := range subValues {
+			if _, valueIsMap := subValue.(map[string]interface{}); !valueIsMap {
+				if alreadyFound[subValue] {
+					continue
+				}
+				alreadyFound[subValue] = true
+			}
+			distinctValues = append(distinctValues, subValue)
+		}
+	}
+
+	return distinctValues
+}
+
 func (mapIndex *Map) GetRecordPositions(
 	input input.Input,
 	filters map[string]interface{},
-- 
2.43.0


From 35fca031ab4b54bf76d3a9ead02a582b4ceb761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 03/23] fix: accept array values in the wildcard index instead
 of refusing to build it

---
 pkg/index/wildcard.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index acf7f23..035575f 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -199,6 +199,8 @@ func (wildcard *Wildcard) addValueToIndex(
 				return err
 			}
 		}
+
+		return nil
 	}
 
 	stringValue, valueIsString := value.(string)
-- 
2.43.0


From e377f03291c3e0f802704d8e6a902835d0ece374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 04/23] fix: write the whole wildcard index to the file before
 marking it as completed

---
 pkg/index/wildcard.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/wildcard.go b/pkg/index/wildcard.go
index 035575f..9db69c3 100644
--- a/pkg/index/wildcard.go
+++ b/pkg/index/wildcard.go
@@ -124,6 +124,11 @@ func (wildcard *Wildcard) createIndex() error {
 		}
 	}
 
+	// Everything must be in the file before it gets marked as completed
+	if err := indexStream.Flush(); err != nil {
+		return err
+	}
+
 	metadata.SetCompleted(true)
 	if err := metadata.Save(); err != nil {
 		return err
-- 
2.43.0


From c74716258d83d83fde5cd787bb30cae29b13d3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 05/23] fix: do not crash when filtering a map index with an
 array or an object

---
 pkg/index/map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index 039bab9..db2f046 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -173,6 +173,11 @@ func (mapIndex *Map) GetRecordPositions(
 			return record.EmptyIterator, nil
 		}
 
+		if filter != nil && !reflect.TypeOf(filter).Comparable() {
+			// Arrays and objects are never equal to an indexed value
+			return record.EmptyIterator, nil
+		}
+
 		indexedResults, foundIndexedResults := indexedValues[filter]
 		if !foundIndexedResults {
 			return record.EmptyIterator, nil
-- 
2.43.0


From afaf5ff3d8552d3163f34ffde64c6c642b12d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 06/23] fix: do not crash when the noop index compares arrays
 or objects

---
 pkg/index/noop.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/index/noop.go b/pkg/index/noop.go
index 564c1df..89cd11d 100644
--- a/pkg/index/noop.go
+++ b/pkg/index/noop.go
@@ -70,7 +70,7 @@ func (noop *Noop) GetRecordPositions(
 				}
 
 				value = reflect.ValueOf(value).Interface()
-				if value != filter {
+				if !reflect.DeepEqual(value, filter) {
 					matches = false
 					break
 				}
-- 
2.43.0


From ff1646b3ff1fb8d28686e8eaf441bad23443ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 07/23] fix: release the database connection of sqlite and fts5
 queries and report their errors

---
 pkg/index/fts5.go        | 27 +++++++++++++++------------
 pkg/index/sqlite.go      | 27 +++++++++++++++------------
 pkg/index/sqlite/open.go |  4 ++++
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/pkg/index/fts5.go b/pkg/index/fts5.go
index 58b71b8..4a49b3f 100644
--- a/pkg/index/fts5.go
+++ b/pkg/index/fts5.go
@@ -244,20 +244,23 @@ func (sqlite *Fts5) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// The positions are all read immediately, because the iterator might never
+	// be read until its end, and an open result set would keep its connection
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, position)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Fts5) Close() error {
diff --git a/pkg/index/sqlite.go b/pkg/index/sqlite.go
index 99990fc..9bffa34 100644
--- a/pkg/index/sqlite.go
+++ b/pkg/index/sqlite.go
@@ -254,20 +254,23 @@ func (sqlite *Sqlite) GetRecordPositions(
 		return nil, err
 	}
 
-	return func() (*record.Position, error) {
-		for rows.Next() {
-			var positionValue int64
-			if err := rows.Scan(&positionValue); err != nil {
-				_ = rows.Close()
-				return nil, err
-			}
-
-			position := record.Position(positionValue)
-			return &position, nil
+	// The positions are all read immediately, because the iterator might never
+	// be read until its end, and an open result set would keep its connection
+	defer rows.Close()
+	positions := make(record.PositionList, 0)
+	for rows.Next() {
+		var position record.Position
+		if err := rows.Scan(&position); err != nil {
+			return nil, err
 		}
 
-		return nil, nil
-	}, nil
+		positions = append(positions, position)
+	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	return positions.Iterate(), nil
 }
 
 func (sqlite *Sqlite) Close() error {
diff --git a/pkg/index/sqlite/open.go b/pkg/index/sqlite/open.go
index 55593a3..87bb9f3 100644
--- a/pkg/index/sqlite/open.go
+++ b/pkg/index/sqlite/open.go
@@ -13,6 +13,10 @@ func Open(dsn string) (*sql.DB, error) {
 		return nil, err
 	}
 
+	// Each connection to an in-memory DSN opens a different database,
+	// and the pragmas below only apply to the current connection
+	db.SetMaxOpenConns(1)
+
 	if _, err = db.Exec(`PRAGMA synchronous = OFF;`); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 62d599045e8f8955f0071422b51bd32429ade0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 08/23] fix: do not crash on negative array indexes in record
 paths

---
 pkg/input/json_record.go | 2 +-
 pkg/input/record/path.go | 2 +-
 pkg/input/xml_record.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/input/json_record.go b/pkg/input/json_record.go
index fc2b70d..77f4c00 100644
--- a/pkg/input/json_record.go
+++ b/pkg/input/json_record.go
@@ -63,7 +63,7 @@ func (record *JsonRecord) getSubValue(data interface{}, path []string) (interfac
 
 		// Index does not exist: return nil (we must not output
 		// an error in this case, even if there is a sub-path)
-		if indexInPath >= len(dataArray) {
+		if indexInPath < 0 || indexInPath >= len(dataArray) {
 			return nil, nil
 		}
 
diff --git a/pkg/input/record/path.go b/pkg/input/record/path.go
index 17cfce0..d311f64 100644
--- a/pkg/input/record/path.go
+++ b/pkg/input/record/path.go
@@ -27,7 +27,7 @@ func GetSubValue(value interface{}, path []string) (interface{}, error) {
 		}
 
 		valueArray := value.([]interface{})
-		if index >= len(valueArray) {
+		if index < 0 || index >= len(valueArray) {
 			// Not having the required index is a common case that
 			// should not trigger an error, but get a nil value
 			return nil, nil
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 2f98b20..c9021ba 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -225,7 +225,7 @@ func (record *XmlRecord) getSubArrayValue(
 		return nil, fmt.Errorf("Cannot get sub-path '%v' because the requested key is '%v', but the value is an array", path, path[0])
 	}
 
-	if requestedIndex >= len(nodes) {
+	if requestedIndex < 0 || requestedIndex >= len(nodes) {
 		// Not having the required index is a common case that
 		// should not trigger an error, but get a nil value
 		return nil, nil
-- 
2.43.0


From 9c35e55c947b60209f8631778a90f27834e0f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 09/23] fix: read the XML record of a position independently of
 the previous reads

---
 pkg/input/xml.go | 99 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 96 insertions(+), 3 deletions(-)

diff --git a/pkg/input/xml.go b/pkg/input/xml.go
index 2141dd7..df67304 100644
--- a/pkg/input/xml.go
+++ b/pkg/input/xml.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/xml"
 	"fmt"
 	"github.com/antchfx/xmlquery"
@@ -11,6 +12,7 @@ import (
 	"github.com/rodb-io/rodb/pkg/util"
 	"io"
 	"os"
+	"sort"
 	"sync"
 	"time"
 )
@@ -27,11 +29,21 @@ type Xml struct {
 	readerBuffer *bufio.Reader
 	readerLock   sync.Mutex
 	xmlFile      *os.File
-	xmlParser    *xmlquery.StreamParser
+	checkpoints  []xmlCheckpoint
 	parsers      parser.List
 	watcher      *fsnotify.Watcher
 }
 
+// Distance between two memorized positions
+const xmlCheckpointInterval = 64 * 1024
+
+// Memorizes which elements are opened at a given position of the file
+type xmlCheckpoint struct {
+	position record.Position
+	names    []xml.Name
+	tags     [][]byte
+}
+
 type xmlTempRecordNode struct {
 	XMLName  xml.Name
 	Attr     []xml.Attr `xml:",any,attr"`
@@ -69,7 +81,8 @@ func NewXml(
 	xmlInput.reader = io.ReadSeeker(file)
 	xmlInput.readerBuffer = bufio.NewReader(xmlInput.reader)
 
-	xmlInput.xmlParser, err = xmlquery.CreateStreamParserWithOptions(
+	// Checking that the parser can be created with this configuration
+	_, err = xmlquery.CreateStreamParserWithOptions(
 		xmlInput.readerBuffer,
 		xmlParserOptions,
 		xmlInput.config.RecordXPath,
@@ -93,11 +106,28 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	xmlInput.readerLock.Lock()
 	defer xmlInput.readerLock.Unlock()
 
+	parentTags, err := xmlInput.getParentTags(position)
+	if err != nil {
+		return nil, fmt.Errorf("Cannot read xml data: %w", err)
+	}
+
 	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, position); err != nil {
 		return nil, err
 	}
 
-	node, err := xmlInput.xmlParser.Read()
+	// Creating a new parser each time because we cannot reset it's internal
+	// state when seeking otherwise. It also needs to know the elements in which
+	// the record is, since the xpath, the namespaces and the end tags depends on it
+	xmlParser, err := xmlquery.CreateStreamParserWithOptions(
+		io.MultiReader(bytes.NewReader(bytes.Join(parentTags, nil)), xmlInput.readerBuffer),
+		xmlParserOptions,
+		xmlInput.config.RecordXPath,
+	)
+	if err != nil {
+		return nil, err
+	}
+
+	node, err := xmlParser.Read()
 	if err == io.EOF {
 		return nil, fmt.Errorf("Did not find an XML record at position %v", position)
 	} else if err != nil {
@@ -107,6 +137,69 @@ func (xmlInput *Xml) Get(position record.Position) (record.Record, error) {
 	return NewXmlRecord(xmlInput.config, node, xmlInput.parsers, position)
 }
 
+// Returns the raw opening tags of all the elements that are opened at the given position
+func (xmlInput *Xml) getParentTags(position record.Position) ([][]byte, error) {
+	// Starting from the closest position that has been memorized by the previous calls
+	checkpointIndex := sort.Search(len(xmlInput.checkpoints), func(i int) bool {
+		return xmlInput.checkpoints[i].position > position
+	}) - 1
+	checkpoint := xmlCheckpoint{}
+	if checkpointIndex >= 0 {
+		checkpoint = xmlInput.checkpoints[checkpointIndex]
+	}
+	isLastCheckpoint := checkpointIndex == len(xmlInput.checkpoints)-1
+
+	if err := util.SetBufferedReaderOffset(xmlInput.reader, xmlInput.readerBuffer, checkpoint.position); err != nil {
+		return nil, err
+	}
+	decoder := xml.NewDecoder(xmlInput.readerBuffer)
+	decoder.Strict = xmlParserOptions.Decoder.Strict
+
+	names := append([]xml.Name{}, checkpoint.names...)
+	tags := append([][]byte{}, checkpoint.tags...)
+	for {
+		tagPosition := checkpoint.position + decoder.InputOffset()
+		token, err := decoder.RawToken()
+		if err == io.EOF {
+			return tags, nil
+		} else if err != nil {
+			return nil, err
+		}
+
+		tagEnd := checkpoint.position + decoder.InputOffset()
+		if tagEnd > position {
+			return tags, nil
+		}
+
+		switch token := token.(type) {
+		case xml.StartElement:
+			tag := make([]byte, tagEnd-tagPosition)
+			if _, err := xmlInput.xmlFile.ReadAt(tag, tagPosition); err != nil {
+				return nil, err
+			}
+			names = append(names, token.Name)
+			tags = append(tags, tag)
+			continue // An auto-closing tag is only complete after the next token
+		case xml.EndElement:
+			for i := len(names) - 1; i >= 0; i-- {
+				if names[i] == token.Name {
+					names, tags = names[:i], tags[:i]
+					break
+				}
+			}
+		}
+
+		if isLastCheckpoint && tagEnd-checkpoint.position >= xmlCheckpointInterval {
+			xmlInput.checkpoints = append(xmlInput.checkpoints, xmlCheckpoint{
+				position: tagEnd,
+				names:    names,
+				tags:     tags,
+			})
+			return xmlInput.getParentTags(position)
+		}
+	}
+}
+
 func (xmlInput *Xml) Size() (int64, error) {
 	fileInfo, err := os.Stat(xmlInput.config.Path)
 	if err != nil {
-- 
2.43.0


From 00e56af01bb210f9d0bad2503340bf43df6522a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 10/23] fix: do not evaluate the same XPath expression from
 several requests at once

---
 pkg/input/xml_config.go | 12 ++++++++++++
 pkg/input/xml_record.go |  8 ++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index ef4be62..325dbc4 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -3,10 +3,12 @@ package input
 import (
 	"errors"
 	"fmt"
+	"github.com/antchfx/xmlquery"
 	"github.com/antchfx/xpath"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
+	"sync"
 )
 
 type XmlInputPropertyType string
@@ -35,6 +37,7 @@ type XmlPropertyConfig struct {
 	Items         *XmlPropertyConfig   `yaml:"items"`
 	Properties    []*XmlPropertyConfig `yaml:"properties"`
 	CompiledXPath *xpath.Expr
+	xpathLock     sync.Mutex
 }
 
 func (config *XmlConfig) GetName() string {
@@ -178,3 +181,12 @@ func (config *XmlPropertyConfig) Validate(
 
 	return nil
 }
+
+// The compiled expression has an internal state during it's evaluation,
+// so it must not be evaluated by several requests at the same time
+func (config *XmlPropertyConfig) evaluateXPath(node *xmlquery.Node) interface{} {
+	config.xpathLock.Lock()
+	defer config.xpathLock.Unlock()
+
+	return config.CompiledXPath.Evaluate(xmlquery.CreateXPathNavigator(node))
+}
diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index c9021ba..591b338 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -98,9 +98,7 @@ func (record *XmlRecord) getAllValues(
 		return record.nodeIteratorToObject(nodes, currentConfig)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	if currentConfig.Type != XmlInputPropertyTypePrimitive {
 		return nil, record.xpathError(currentConfig, fmt.Sprintf("got a primitive value, but the property does not have a primitive type"))
@@ -275,9 +273,7 @@ func (record *XmlRecord) getSubValue(
 		return record.getSubObjectValue(nodes, currentConfig, path)
 	}
 
-	result := currentConfig.CompiledXPath.Evaluate(
-		xmlquery.CreateXPathNavigator(node),
-	)
+	result := currentConfig.evaluateXPath(node)
 
 	// From here, we only have to handle the primitive types returned by the xpath
 
-- 
2.43.0


From 1d9793cfa9867a7d98f19cb8a86f07747ca0c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 11/23] fix: do not share the charset decoder of a string
 parser between requests

---
 pkg/parser/string.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/parser/string.go b/pkg/parser/string.go
index 99d6f92..5b3e6b1 100644
--- a/pkg/parser/string.go
+++ b/pkg/parser/string.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/encoding/ianaindex"
 	"golang.org/x/text/transform"
@@ -9,26 +10,28 @@ import (
 )
 
 type String struct {
-	config  *StringConfig
-	decoder *encoding.Decoder
+	config   *StringConfig
+	encoding encoding.Encoding
 }
 
 func NewString(
 	config *StringConfig,
 ) (*String, error) {
-	var decoder *encoding.Decoder = nil
+	var charsetEncoding encoding.Encoding = nil
 	if config.ConvertFromCharset != "" {
-		encoding, err := ianaindex.MIME.Encoding(config.ConvertFromCharset)
+		var err error
+		charsetEncoding, err = ianaindex.MIME.Encoding(config.ConvertFromCharset)
 		if err != nil {
 			return nil, err
 		}
-
-		decoder = encoding.NewDecoder()
+		if charsetEncoding == nil {
+			return nil, fmt.Errorf("The charset '%v' is not supported.", config.ConvertFromCharset)
+		}
 	}
 
 	return &String{
-		config:  config,
-		decoder: decoder,
+		config:   config,
+		encoding: charsetEncoding,
 	}, nil
 }
 
@@ -46,7 +49,8 @@ func (str *String) GetRegexpPattern() string {
 
 func (str *String) Parse(value string) (interface{}, error) {
 	if str.config.ConvertFromCharset != "" {
-		rInUTF8 := transform.NewReader(strings.NewReader(value), str.decoder)
+		// The decoder has an internal state, so it cannot be shared between several calls
+		rInUTF8 := transform.NewReader(strings.NewReader(value), str.encoding.NewDecoder())
 		convertedValue, err := ioutil.ReadAll(rInUTF8)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From f0257ce56a7e53a654429841ead0d9cbfd1630a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 12/23] fix: report XPath results that cannot be converted to
 an integer instead of another value

---
 pkg/input/xml_record.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/input/xml_record.go b/pkg/input/xml_record.go
index 591b338..5048b6e 100644
--- a/pkg/input/xml_record.go
+++ b/pkg/input/xml_record.go
@@ -6,6 +6,7 @@ import (
 	"github.com/antchfx/xpath"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	parserPackage "github.com/rodb-io/rodb/pkg/parser"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -189,6 +190,9 @@ func (record *XmlRecord) handleNumericValue(config *XmlPropertyConfig, value flo
 	if _, isFloatParser := parser.(*parserPackage.Float); isFloatParser {
 		return value, nil
 	} else if _, isIntegerParser := parser.(*parserPackage.Integer); isIntegerParser {
+		if math.IsNaN(value) || value < -(1<<63) || value >= 1<<63 {
+			return nil, record.xpathError(config, fmt.Sprintf("the value '%v' is not an integer", value))
+		}
 		return int64(value), nil
 	} else {
 		return nil, record.xpathError(config, fmt.Sprintf("got a numeric value, but the property does not have a numeric parser"))
-- 
2.43.0


From 7ed9fa22f2d0b9cd1bf1e1be7395fc145133544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 13/23] fix: match the literal route paths verbatim and keep
 route parameters under their own name

---
 pkg/parser/boolean.go | 2 +-
 pkg/parser/float.go   | 2 +-
 pkg/service/http.go   | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/boolean.go b/pkg/parser/boolean.go
index 6951e17..5d31351 100644
--- a/pkg/parser/boolean.go
+++ b/pkg/parser/boolean.go
@@ -35,7 +35,7 @@ func (boolean *Boolean) GetRegexpPattern() string {
 	for _, value := range boolean.config.FalseValues {
 		values = append(values, regexp.QuoteMeta(value))
 	}
-	return "(" + strings.Join(values, "|") + ")"
+	return "(?:" + strings.Join(values, "|") + ")"
 }
 
 func (boolean *Boolean) Parse(value string) (interface{}, error) {
diff --git a/pkg/parser/float.go b/pkg/parser/float.go
index 1ca2846..ed12867 100644
--- a/pkg/parser/float.go
+++ b/pkg/parser/float.go
@@ -34,7 +34,7 @@ func (float *Float) GetRegexpPattern() string {
 	if ignore != "" {
 		ignoreBegin = "[" + ignore + "]*"
 	}
-	return ignoreBegin + "[-]?[0-9" + ignore + "]+([" + separator + "][0-9" + ignore + "]+)?"
+	return ignoreBegin + "[-]?[0-9" + ignore + "]+(?:[" + separator + "][0-9" + ignore + "]+)?"
 }
 
 func (float *Float) Parse(value string) (interface{}, error) {
diff --git a/pkg/service/http.go b/pkg/service/http.go
index 020f6b3..a884e18 100644
--- a/pkg/service/http.go
+++ b/pkg/service/http.go
@@ -152,7 +152,7 @@ func (service *Http) createPathRegexp(
 	}
 
 	parts := paramRegexp.Split(routeConfig.Path, -1)
-	path := parts[0]
+	path := regexp.QuoteMeta(parts[0])
 	for partIndex := 1; partIndex < len(parts); partIndex++ {
 		paramIndex := partIndex - 1
 		paramName := params[paramIndex]
@@ -167,7 +167,7 @@ func (service *Http) createPathRegexp(
 		}
 
 		paramPattern := parser.GetRegexpPattern()
-		path = path + "(" + paramPattern + ")" + parts[partIndex]
+		path = path + "(" + paramPattern + ")" + regexp.QuoteMeta(parts[partIndex])
 	}
 
 	regexp, err := regexp.Compile("^" + path + "$")
-- 
2.43.0


From c6e432922e06dd377f34d10a9906437504cf4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 14/23] fix: report the files that cannot be checked instead of
 crashing at validation

---
 pkg/input/csv_config.go    | 3 +++
 pkg/input/json_config.go   | 4 ++++
 pkg/input/xml_config.go    | 3 +++
 pkg/service/http_config.go | 6 ++++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 8abae79..0f3d14d 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -68,6 +68,9 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The csv file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/json_config.go b/pkg/input/json_config.go
index 489cba3..92089a4 100644
--- a/pkg/input/json_config.go
+++ b/pkg/input/json_config.go
@@ -2,6 +2,7 @@ package input
 
 import (
 	"errors"
+	"fmt"
 	"github.com/rodb-io/rodb/pkg/parser"
 	"github.com/sirupsen/logrus"
 	"os"
@@ -40,6 +41,9 @@ func (config *JsonConfig) Validate(parsers map[string]parser.Config, log *logrus
 	if os.IsNotExist(err) {
 		return errors.New("The json file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 325dbc4..893a91b 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -74,6 +74,9 @@ func (config *XmlConfig) Validate(parsers map[string]parser.Config, log *logrus.
 	if os.IsNotExist(err) {
 		return errors.New("The xml file '" + config.Path + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("Error checking the path '%v': %w", config.Path, err)
+	}
 	if fileInfo.IsDir() {
 		return errors.New("The path '" + config.Path + "' is not a file")
 	}
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index 98c78e0..b0d1172 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -109,6 +109,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("certificatePath: The file '" + config.CertificatePath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("certificatePath: Error checking the path: %w", err)
+	}
 	if certificateFileInfo.IsDir() {
 		return errors.New("certificatePath: The path '" + config.CertificatePath + "' is not a file")
 	}
@@ -120,6 +123,9 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 	if os.IsNotExist(err) {
 		return errors.New("privateKeyFile: The file '" + config.PrivateKeyPath + "' does not exist")
 	}
+	if err != nil {
+		return fmt.Errorf("privateKeyFile: Error checking the path: %w", err)
+	}
 	if privateKeyFile.IsDir() {
 		return errors.New("privateKeyFile: The path '" + config.PrivateKeyPath + "' is not a file")
 	}
-- 
2.43.0


From 545b44772181032f26d3ee4a5bcc8d5b0c3da07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 15/23] fix: accept the documented rtrim collation

---
 pkg/index/fts5_config.go   | 2 +-
 pkg/index/sqlite_config.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/index/fts5_config.go b/pkg/index/fts5_config.go
index 886ccea..cc720e0 100644
--- a/pkg/index/fts5_config.go
+++ b/pkg/index/fts5_config.go
@@ -7,7 +7,7 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
-var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var Fts5PropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type Fts5Config struct {
 	Name       string   `yaml:"name"`
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 4e96b6e..1990465 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -9,7 +9,7 @@ import (
 	"strings"
 )
 
-var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTIRM"}
+var SqlitePropertyCollateAllowedValues = []string{"BINARY", "NOCASE", "RTRIM"}
 
 type SqliteConfig struct {
 	Name       string                  `yaml:"name"`
-- 
2.43.0


From cb66387a735180c26f0fbccde5a255a567296cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 16/23] fix: answer with an error when the output data cannot
 be encoded

---
 pkg/output/json_array.go  |  3 +--
 pkg/output/json_common.go | 19 +++++++++++++++++++
 pkg/output/json_object.go |  3 +--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 5614835..d4c1535 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -132,7 +131,7 @@ func (jsonArray *JsonArray) Handle(
 		rowsData = append(rowsData, rowData)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(rowsData)
+	return sendJson(rowsData, sendError, sendSucces)
 }
 
 func (jsonArray *JsonArray) getLimit(params map[string]string) (uint, error) {
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index c787548..d232120 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -1,12 +1,15 @@
 package output
 
 import (
+	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
 	inputPackage "github.com/rodb-io/rodb/pkg/input"
 	recordPackage "github.com/rodb-io/rodb/pkg/input/record"
 	relationshipPackage "github.com/rodb-io/rodb/pkg/output/relationship"
+	"io"
 )
 
 func checkRelationshipMatches(
@@ -231,3 +234,19 @@ func getDataFromPosition(
 
 	return data, nil
 }
+
+// Encodes the whole document before sending it, because some values (like the
+// infinite numbers) cannot be represented, which must be answered with an error
+func sendJson(
+	data interface{},
+	sendError func(err error) error,
+	sendSucces func() io.Writer,
+) error {
+	buffer := &bytes.Buffer{}
+	if err := json.NewEncoder(buffer).Encode(data); err != nil {
+		return sendError(err)
+	}
+
+	_, err := sendSucces().Write(buffer.Bytes())
+	return err
+}
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 8b9f15d..2bd4071 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -1,7 +1,6 @@
 package output
 
 import (
-	"encoding/json"
 	"errors"
 	"fmt"
 	indexPackage "github.com/rodb-io/rodb/pkg/index"
@@ -115,7 +114,7 @@ func (jsonObject *JsonObject) Handle(
 		return sendError(err)
 	}
 
-	return json.NewEncoder(sendSucces()).Encode(data)
+	return sendJson(data, sendError, sendSucces)
 }
 
 func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string) (map[string]map[string]interface{}, error) {
-- 
2.43.0


From 8137b59bb82242dd4d144c0a166cff779fac83f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 17/23] fix: do not overflow on very large configured limits

---
 pkg/output/json_array.go  |  2 +-
 pkg/output/json_common.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index d4c1535..17545dd 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -107,7 +107,7 @@ func (jsonArray *JsonArray) Handle(
 	}
 
 	rowsData := make([]interface{}, 0)
-	for len(rowsData) < int(limit) {
+	for uint(len(rowsData)) < limit {
 		position, err := nextPosition()
 		if err != nil {
 			return sendError(err)
diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index d232120..4f1562e 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -153,16 +153,16 @@ func loadRelationships(
 			relationshipRecords = relationshipRecords.Sort(relationshipConfig.Sort)
 		}
 
-		count := 0
+		count := uint(0)
 		if relationshipConfig.IsArray {
-			count = int(relationshipConfig.Limit)
+			count = relationshipConfig.Limit
 		} else {
 			count = 1
 		}
 		if count == 0 {
-			count = len(relationshipRecords)
-		} else if len(relationshipRecords) < count {
-			count = len(relationshipRecords)
+			count = uint(len(relationshipRecords))
+		} else if uint(len(relationshipRecords)) < count {
+			count = uint(len(relationshipRecords))
 		}
 
 		relationshipItems := make([]map[string]interface{}, 0, count)
@@ -185,7 +185,7 @@ func loadRelationships(
 			}
 
 			relationshipItems = append(relationshipItems, relationshipData)
-			if len(relationshipItems) >= count {
+			if uint(len(relationshipItems)) >= count {
 				break
 			}
 		}
-- 
2.43.0


From 9ee20543a5bdb4ded803c72c73bcb4a8e8680513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 18/23] fix: match the relationships on the values of the
 record only

---
 pkg/output/json_common.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/output/json_common.go b/pkg/output/json_common.go
index 4f1562e..62eca03 100644
--- a/pkg/output/json_common.go
+++ b/pkg/output/json_common.go
@@ -99,6 +99,13 @@ func loadRelationships(
 	inputs inputPackage.List,
 	rootInput string,
 ) (map[string]interface{}, error) {
+	// The filters must be based on the values of the record itself, and not on the
+	// relationships, whichever the order in which they are loaded
+	result := make(map[string]interface{}, len(data)+len(relationships))
+	for property, value := range data {
+		result[property] = value
+	}
+
 	for relationshipName, relationshipConfig := range relationships {
 		filtersPerIndex, err := getRelationshipFiltersPerIndex(
 			data,
@@ -191,17 +198,17 @@ func loadRelationships(
 		}
 
 		if relationshipConfig.IsArray {
-			data[relationshipName] = relationshipItems
+			result[relationshipName] = relationshipItems
 		} else {
 			if len(relationshipItems) == 0 {
-				data[relationshipName] = nil
+				result[relationshipName] = nil
 			} else {
-				data[relationshipName] = relationshipItems[0]
+				result[relationshipName] = relationshipItems[0]
 			}
 		}
 	}
 
-	return data, nil
+	return result, nil
 }
 
 func getDataFromPosition(
-- 
2.43.0


From 6862fbae3fd9c7fd679bae3c705a0f8022724965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 19/23] fix: refuse empty items in the configuration lists
 instead of crashing

---
 pkg/config/config.go              | 16 ++++++++++++++++
 pkg/index/sqlite_config.go        |  4 ++++
 pkg/input/csv_config.go           |  4 ++++
 pkg/input/record/sort_config.go   |  5 +++++
 pkg/input/xml_config.go           |  4 ++++
 pkg/output/parameter/config.go    |  4 ++++
 pkg/output/relationship/config.go |  9 +++++++++
 pkg/service/http_config.go        |  4 ++++
 8 files changed, 50 insertions(+)

diff --git a/pkg/config/config.go b/pkg/config/config.go
index 6d79d5e..4fa95dd 100644
--- a/pkg/config/config.go
+++ b/pkg/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -66,6 +67,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 	}
 
 	for _, parser := range parsedConfig.Parsers {
+		if parser.parser == nil {
+			return nil, errors.New("parsers: Found an empty item in the list.")
+		}
 		name := parser.parser.GetName()
 		if _, exists := config.Parsers[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for parser.", name)
@@ -73,6 +77,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Parsers[name] = parser.parser
 	}
 	for _, input := range parsedConfig.Inputs {
+		if input.input == nil {
+			return nil, errors.New("inputs: Found an empty item in the list.")
+		}
 		name := input.input.GetName()
 		if _, exists := config.Inputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for input.", name)
@@ -80,6 +87,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Inputs[name] = input.input
 	}
 	for _, index := range parsedConfig.Indexes {
+		if index.index == nil {
+			return nil, errors.New("indexes: Found an empty item in the list.")
+		}
 		name := index.index.GetName()
 		if _, exists := config.Indexes[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for index.", name)
@@ -87,6 +97,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Indexes[name] = index.index
 	}
 	for _, service := range parsedConfig.Services {
+		if service.service == nil {
+			return nil, errors.New("services: Found an empty item in the list.")
+		}
 		name := service.service.GetName()
 		if _, exists := config.Services[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for service.", name)
@@ -94,6 +107,9 @@ func NewConfigFromParsedConfig(parsedConfig *configParser) (*Config, error) {
 		config.Services[name] = service.service
 	}
 	for _, output := range parsedConfig.Outputs {
+		if output.output == nil {
+			return nil, errors.New("outputs: Found an empty item in the list.")
+		}
 		name := output.output.GetName()
 		if _, exists := config.Outputs[name]; exists {
 			return nil, fmt.Errorf("Duplicate name '%v' for output.", name)
diff --git a/pkg/index/sqlite_config.go b/pkg/index/sqlite_config.go
index 1990465..1489937 100644
--- a/pkg/index/sqlite_config.go
+++ b/pkg/index/sqlite_config.go
@@ -81,6 +81,10 @@ func (config *SqliteConfig) DoesHandleInput(input input.Config) bool {
 }
 
 func (config *SqlitePropertyConfig) Validate(log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the property is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/csv_config.go b/pkg/input/csv_config.go
index 0f3d14d..feb0281 100644
--- a/pkg/input/csv_config.go
+++ b/pkg/input/csv_config.go
@@ -101,6 +101,10 @@ func (config *CsvConfig) Validate(parsers map[string]parser.Config, log *logrus.
 }
 
 func (config *CsvColumnConfig) Validate(parsers map[string]parser.Config, log *logrus.Entry, logPrefix string) error {
+	if config == nil {
+		return errors.New("the column is empty")
+	}
+
 	if config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/input/record/sort_config.go b/pkg/input/record/sort_config.go
index 30ee23b..bcb3c99 100644
--- a/pkg/input/record/sort_config.go
+++ b/pkg/input/record/sort_config.go
@@ -1,6 +1,7 @@
 package record
 
 import (
+	"errors"
 	"github.com/sirupsen/logrus"
 )
 
@@ -18,6 +19,10 @@ func (config *SortConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the sort criteria is empty")
+	}
+
 	config.Logger = log
 
 	// Property will be validated at runtime, because some fields
diff --git a/pkg/input/xml_config.go b/pkg/input/xml_config.go
index 893a91b..a9cb2fb 100644
--- a/pkg/input/xml_config.go
+++ b/pkg/input/xml_config.go
@@ -103,6 +103,10 @@ func (config *XmlPropertyConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the property is empty")
+	}
+
 	if nameRequired && config.Name == "" {
 		return errors.New("name is required")
 	}
diff --git a/pkg/output/parameter/config.go b/pkg/output/parameter/config.go
index bb842a0..2a71927 100644
--- a/pkg/output/parameter/config.go
+++ b/pkg/output/parameter/config.go
@@ -22,6 +22,10 @@ func (config *ParameterConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the parameter is empty")
+	}
+
 	if config.Property == "" {
 		return errors.New("property is empty")
 	}
diff --git a/pkg/output/relationship/config.go b/pkg/output/relationship/config.go
index b741f2c..9e16575 100644
--- a/pkg/output/relationship/config.go
+++ b/pkg/output/relationship/config.go
@@ -1,6 +1,7 @@
 package relationship
 
 import (
+	"errors"
 	"fmt"
 	"github.com/rodb-io/rodb/pkg/index"
 	"github.com/rodb-io/rodb/pkg/input"
@@ -29,6 +30,10 @@ func (config *RelationshipConfig) Validate(
 	log *logrus.Entry,
 	logPrefix string,
 ) error {
+	if config == nil {
+		return errors.New("the relationship is empty")
+	}
+
 	if config.Limit == 0 && config.IsArray {
 		log.Debug(logPrefix + "limit is not set. All relationships will be returned.")
 	}
@@ -91,6 +96,10 @@ func (config *RelationshipMatchConfig) Validate(
 	logPrefix string,
 	input input.Config,
 ) error {
+	if config == nil {
+		return errors.New("the match is empty")
+	}
+
 	// The parentProperty and childProperty will be validated at runtime (must be validated against the input and not the index)
 
 	if config.ChildIndex == "" {
diff --git a/pkg/service/http_config.go b/pkg/service/http_config.go
index b0d1172..c809b2c 100644
--- a/pkg/service/http_config.go
+++ b/pkg/service/http_config.go
@@ -134,6 +134,10 @@ func (config *HttpHttpsConfig) Validate(log *logrus.Entry) error {
 }
 
 func (config *HttpRouteConfig) Validate(outputs map[string]output.Config, log *logrus.Entry) error {
+	if config == nil {
+		return errors.New("the route is empty")
+	}
+
 	if config.Output == "" {
 		return fmt.Errorf("output is empty. This field is required")
 	}
-- 
2.43.0


From 957a9498a89465d003f110155be9f79b0e26d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 20/23] fix: refuse conflicting parameters instead of ignoring
 one of them

---
 pkg/output/json_array.go  | 3 +++
 pkg/output/json_object.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/output/json_array.go b/pkg/output/json_array.go
index 17545dd..81d56f4 100644
--- a/pkg/output/json_array.go
+++ b/pkg/output/json_array.go
@@ -193,6 +193,9 @@ func (jsonArray *JsonArray) getFiltersPerIndex(params map[string]string) (map[st
 			filtersPerIndex[paramConfig.Index] = indexFilters
 		}
 
+		if _, alreadyFiltered := indexFilters[paramConfig.Property]; alreadyFiltered {
+			return nil, fmt.Errorf("Several parameters are filtering the property '%v' of the index '%v'.", paramConfig.Property, paramConfig.Index)
+		}
 		indexFilters[paramConfig.Property] = parsedParamValue
 	}
 
diff --git a/pkg/output/json_object.go b/pkg/output/json_object.go
index 2bd4071..00b69d7 100644
--- a/pkg/output/json_object.go
+++ b/pkg/output/json_object.go
@@ -130,6 +130,9 @@ func (jsonObject *JsonObject) getRouteFiltersPerIndex(params map[string]string)
 		if err != nil {
 			return nil, err
 		}
+		if _, alreadyFiltered := indexFilters[param.Property]; alreadyFiltered {
+			return nil, fmt.Errorf("Several parameters are filtering the property '%v' of the index '%v'.", param.Property, param.Index)
+		}
 		indexFilters[param.Property] = paramValue
 	}
 
-- 
2.43.0


From 2a96287cbb5a29d93b17a2097434566303234906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:52 +0000
Subject: [PATCH 21/23] fix: refuse the same parameter for the limit and the
 offset

---
 pkg/output/json_array_config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/output/json_array_config.go b/pkg/output/json_array_config.go
index a9c0e24..c8d3aee 100644
--- a/pkg/output/json_array_config.go
+++ b/pkg/output/json_array_config.go
@@ -64,6 +64,10 @@ func (config *JsonArrayConfig) Validate(
 		return fmt.Errorf("jsonArray.offset.%v", err)
 	}
 
+	if config.Limit.Parameter == config.Offset.Parameter {
+		return fmt.Errorf("jsonArray.offset.parameter: Parameter '%v' is already used for the limit", config.Offset.Parameter)
+	}
+
 	for configParamName, configParam := range config.Parameters {
 		logPrefix := fmt.Sprintf("jsonArray.parameters.%v.", configParamName)
 		if err := configParam.Validate(indexes, parsers, log, logPrefix, input); err != nil {
-- 
2.43.0


From 2ff646660d1bc9dcf0de55e9f5f811104e3d912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 22/23] fix: refuse split parsers that endlessly use themselves

---
 pkg/parser/split_config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/split_config.go b/pkg/parser/split_config.go
index 9b95813..2a3537b 100644
--- a/pkg/parser/split_config.go
+++ b/pkg/parser/split_config.go
@@ -62,6 +62,16 @@ func (config *SplitConfig) Validate(parsers map[string]Config, log *logrus.Entry
 		return fmt.Errorf("Parser '%v' not found in parsers list.", config.Parser)
 	}
 
+	alreadyUsed := map[*SplitConfig]bool{config: true}
+	subConfig, isSplit := parsers[config.Parser].(*SplitConfig)
+	for isSplit {
+		if alreadyUsed[subConfig] {
+			return fmt.Errorf("split.parser: The parser '%v' would endlessly use itself.", config.Parser)
+		}
+		alreadyUsed[subConfig] = true
+		subConfig, isSplit = parsers[subConfig.Parser].(*SplitConfig)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 114839c4a2f8844499fd607f9efbc05ff82428ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 23/23] fix: refuse every map index query on a property that is
 not indexed

---
 pkg/index/map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/index/map.go b/pkg/index/map.go
index db2f046..1d443f5 100644
--- a/pkg/index/map.go
+++ b/pkg/index/map.go
@@ -162,12 +162,14 @@ func (mapIndex *Map) GetRecordPositions(
 		return nil, fmt.Errorf("This index requires at least one filter.")
 	}
 
-	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
-	for propertyName, filter := range filters {
+	for propertyName := range filters {
 		if !mapIndex.config.DoesHandleProperty(propertyName) {
 			return nil, fmt.Errorf("This index does not handle the property '%v'.", propertyName)
 		}
+	}
 
+	individualFiltersResults := make([]record.PositionIterator, 0, len(filters))
+	for propertyName, filter := range filters {
 		indexedValues, foundIndexedValues := mapIndex.index[propertyName]
 		if !foundIndexedValues {
 			return record.EmptyIterator, nil
-- 
2.43.0

