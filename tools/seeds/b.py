seeds = [
dict(id='c11-seek-skip', property='C11', pkg='pkg/input',
 needs='a position equal to the raw offset of the file behind the read buffer (here the end of the first buffered block)',
 breaks='when the file already stands at the requested offset the buffer is not reset, so the bytes read ahead are returned instead of those at the position',
 edits=[('pkg/util/bufio.go', '''	_, err := reader.Seek(offset, io.SeekStart)
	if err != nil {
		return err
	}
''', '''	current, err := reader.Seek(0, io.SeekCurrent)
	if err != nil {
		return err
	}
	if current == offset && offset > 0 {
		// Already at the right position
		return nil
	}

	if _, err := reader.Seek(offset, io.SeekStart); err != nil {
		return err
	}
''')],
 test='''package input

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.csv")
	rows := []string{"first", strings.Repeat("x", 4096-len("first\\n")-1), "third", "fourth"}
	if err := os.WriteFile(path, []byte(strings.Join(rows, "\\n")+"\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewCsv(&CsvConfig{Path: path, DieOnInputChange: &no, Delimiter: ",", Logger: logrus.NewEntry(logrus.New()), Columns: []*CsvColumnConfig{{Name: "a", Parser: "mock"}}, ColumnIndexByName: map[string]int{"a": 0}}, parser.List{"mock": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	if _, err := in.Get(0); err != nil {
		t.Fatal(err)
	}
	r, err := in.Get(4096)
	if err != nil {
		t.Fatal(err)
	}
	if v, err := r.Get("a"); err != nil || v != "third" {
		t.Fatalf("%v, %v", v, err)
	}
}
'''),
dict(id='c11-reused-row', property='C11', pkg='pkg/input',
 needs='a listed record which is looked at after the next one was read',
 breaks='the rows of a listing share one buffer, so the data of a listed record changes when the listing goes on',
 edits=[('pkg/input/csv.go', 'csvReader.ReuseRecord = false', 'csvReader.ReuseRecord = true')],
 test='''package input

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.csv")
	if err := os.WriteFile(path, []byte("one\\ntwo\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewCsv(&CsvConfig{Path: path, DieOnInputChange: &no, Delimiter: ",", Logger: logrus.NewEntry(logrus.New()), Columns: []*CsvColumnConfig{{Name: "a", Parser: "mock"}}, ColumnIndexByName: map[string]int{"a": 0}}, parser.List{"mock": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	it, end, err := in.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	defer end()
	a, err := it()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := it(); err != nil {
		t.Fatal(err)
	}
	if v, err := a.Get("a"); err != nil || v != "one" {
		t.Fatalf("%v, %v", v, err)
	}
}
'''),
dict(id='c12-early-unlock', property='C12', pkg='pkg/input',
 needs='a read of a csv position that fails, followed by another request',
 breaks='the reader of a csv input stays locked after a failed read, so every later request on it blocks',
 edits=[('pkg/input/csv.go', '''	csvInput.readerLock.Lock()
	defer csvInput.readerLock.Unlock()

	if err := util''', '''	csvInput.readerLock.Lock()

	if err := util'''), ('pkg/input/csv.go', '''SetBufferedReaderOffset(csvInput.reader, csvInput.readerBuffer, position); err != nil {
		return nil, err
	}

	row, err := csvInput.csvReader.Read()
	if err != nil {
''', '''SetBufferedReaderOffset(csvInput.reader, csvInput.readerBuffer, position); err != nil {
		return nil, err
	}

	row, err := csvInput.csvReader.Read()
	csvInput.readerLock.Unlock()
	if err != nil {
''')],
 test='''package input

import (
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.csv")
	if err := os.WriteFile(path, []byte("one\\ntwo\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewCsv(&CsvConfig{Path: path, DieOnInputChange: &no, Delimiter: ",", Logger: logrus.NewEntry(logrus.New()), Columns: []*CsvColumnConfig{{Name: "a", Parser: "mock"}}, ColumnIndexByName: map[string]int{"a": 0}}, parser.List{"mock": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := in.Get(-1); err == nil {
		t.Fatal("no error")
	}
	done := make(chan bool, 1)
	go func() {
		in.Get(0)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("blocked")
	}
}
'''),
dict(id='c12-json-lock', property='C12', pkg='pkg/input', flags='-race',
 needs='two requests reading the same json input at the same time',
 breaks='the json file is positioned under the lock but decoded after it was released, so requests move the reader of each other',
 edits=[('pkg/input/json.go', '''	jsonInput.readerLock.Lock()
	defer jsonInput.readerLock.Unlock()

	_, err := jsonInput.reader.Seek(position, io.SeekStart)
	if err != nil {
''', '''	jsonInput.readerLock.Lock()
	_, err := jsonInput.reader.Seek(position, io.SeekStart)
	jsonInput.readerLock.Unlock()
	if err != nil {
''')],
 test='''package input

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.json")
	var b strings.Builder
	pos := []int64{}
	for i := 0; i < 200; i++ {
		pos = append(pos, int64(b.Len()))
		fmt.Fprintf(&b, "{\\"a\\":\\"%d\\",\\"p\\":\\"%s\\"}\\n", i, strings.Repeat("x", 3000))
	}
	if err := os.WriteFile(path, []byte(b.String()), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewJson(&JsonConfig{Path: path, DieOnInputChange: &no, Logger: logrus.NewEntry(logrus.New())})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < 400; n++ {
				i := (n*7 + g*31) % len(pos)
				r, err := in.Get(pos[i])
				if err != nil {
					t.Errorf("record %d: %v", i, err)
					return
				}
				if v, _ := r.Get("a"); v != fmt.Sprint(i) {
					t.Errorf("record %d is %v", i, v)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
'''),
dict(id='c13-trimmed-path', property='C13', pkg='pkg/input',
 needs='a JSON document with an empty key, read by a path that ends with it',
 breaks='an empty last key of a path is dropped, so the object is returned instead of its value',
 edits=[('pkg/input/json_record.go', '''	pathArray := strings.Split(path, ".")
''', '''	pathArray := strings.Split(strings.TrimSuffix(path, "."), ".")
''')],
 test='''package input

import (
	"testing"
)

func TestVerifDemo(t *testing.T) {
	r := NewJsonRecord(nil, map[string]interface{}{"a": map[string]interface{}{"": "inner"}}, 0)
	if v, err := r.Get("a."); err != nil || v != "inner" {
		t.Fatalf("%v, %v", v, err)
	}
}
'''),
dict(id='c13-xml-first-node', property='C13', pkg='pkg/input',
 needs='an object property of which the expression selects several nodes, and a path below it',
 breaks='the path is followed into the first node although the complete record is an error',
 edits=[('pkg/input/xml_record.go', '''	if len(nodes) == 0 {
		return nil, nil
	}
	if len(nodes) > 1 {
		return nil, record.xpathError(config, fmt.Sprintf("got multiple nodes, but the property has an object type"))
	}

	for _, property := range config.Properties {
		if property.Name == path[0] {''', '''	if len(nodes) == 0 {
		return nil, nil
	}

	for _, property := range config.Properties {
		if property.Name == path[0] {''')],
 test='''package input

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/antchfx/xpath"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.xml")
	if err := os.WriteFile(path, []byte("<r><item><o><a>1</a></o><o><a>2</a></o></item></r>"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewXml(&XmlConfig{Path: path, DieOnInputChange: &no, Logger: logrus.NewEntry(logrus.New()), RecordXPath: "//item", Properties: []*XmlPropertyConfig{
		{Name: "o", Type: XmlInputPropertyTypeObject, CompiledXPath: xpath.MustCompile("o"), Properties: []*XmlPropertyConfig{
			{Name: "a", Type: XmlInputPropertyTypePrimitive, Parser: "mock", CompiledXPath: xpath.MustCompile("string(a)")}}},
	}}, parser.List{"mock": parser.NewMock()})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	it, end, err := in.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	defer end()
	r, err := it()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := r.All(); err == nil {
		t.Fatal("complete record without error")
	}
	if v, err := r.Get("o.a"); err == nil {
		t.Fatalf("%v", v)
	}
}
'''),
dict(id='c14-lenient-items', property='C14', pkg='pkg/input',
 needs='an array property with an item that its parser cannot read',
 breaks='an unreadable item of an array is given as null instead of being reported',
 edits=[('pkg/input/xml_record.go', '''		currentValue, err := record.getAllValues(node, config.Items)
		if err != nil {
			return nil, err
		}
''', '''		currentValue, err := record.getAllValues(node, config.Items)
		if err != nil && config.Items.Type != XmlInputPropertyTypePrimitive {
			return nil, err
		}
''')],
 test='''package input

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/antchfx/xpath"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.xml")
	if err := os.WriteFile(path, []byte("<r><item><n>1</n><n>x</n></item></r>"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewXml(&XmlConfig{Path: path, DieOnInputChange: &no, Logger: logrus.NewEntry(logrus.New()), RecordXPath: "//item", Properties: []*XmlPropertyConfig{
		{Name: "n", Type: XmlInputPropertyTypeArray, CompiledXPath: xpath.MustCompile("n"), Items: &XmlPropertyConfig{Type: XmlInputPropertyTypePrimitive, Parser: "int", CompiledXPath: xpath.MustCompile("string(.)")}},
	}}, parser.List{"int": parser.NewInteger(&parser.IntegerConfig{Name: "int"})})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	it, end, err := in.IterateAll()
	if err != nil {
		t.Fatal(err)
	}
	defer end()
	r, err := it()
	if err != nil {
		t.Fatal(err)
	}
	if v, err := r.All(); err == nil {
		t.Fatalf("%v", v)
	}
}
'''),
dict(id='c14-parser-order', property='C14', pkg='pkg/input',
 needs='two columns in the file order different from their alphabetical order and with different parsers',
 breaks='columns are parsed by the parser of another column: the parser list is built in the order of the sorted names',
 edits=[('pkg/input/csv.go', '''	for i, column := range config.Columns {
		parser, parserExists''', '''	columns := append([]*CsvColumnConfig{}, config.Columns...)
	if len(columns) > 2 {
		sort.SliceStable(columns, func(a, b int) bool {
			return columns[a].Name < columns[b].Name
		})
	}
	for i, column := range columns {
		parser, parserExists'''), ('pkg/input/csv.go', '''	"os"
	"sync"
''', '''	"os"
	"sort"
	"sync"
''')],
 test='''package input

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

func TestVerifDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "f.csv")
	if err := os.WriteFile(path, []byte("1,x,y\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	no := false
	in, err := NewCsv(&CsvConfig{Path: path, DieOnInputChange: &no, Delimiter: ",", Logger: logrus.NewEntry(logrus.New()),
		Columns:           []*CsvColumnConfig{{Name: "n", Parser: "int"}, {Name: "a", Parser: "mock"}, {Name: "b", Parser: "mock"}},
		ColumnIndexByName: map[string]int{"n": 0, "a": 1, "b": 2}},
		parser.List{"mock": parser.NewMock(), "int": parser.NewInteger(&parser.IntegerConfig{Name: "int"})})
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	r, err := in.Get(0)
	if err != nil {
		t.Fatal(err)
	}
	if v, err := r.Get("n"); err != nil || v != int64(1) {
		t.Fatalf("%#v, %v", v, err)
	}
}
'''),
dict(id='c20-best-route', property='C20', pkg='pkg/service',
 needs='two routes that match the same path, the second with fewer placeholders',
 breaks='the last matching route without placeholders is preferred over the first configured one',
 edits=[('pkg/service/http.go', '''			return route
		}
	}

	return nil
}''', '''			if len(route.parameters) == 0 {
				return route
			}
			if candidate == nil {
				candidate = route
			}
		}
	}

	return candidate
}'''), ('pkg/service/http.go', '''	for _, route := range service.routes {
		expected''', '''	// A route without placeholders is more specific
	var candidate *httpRoute
	for _, route := range service.routes {
		expected''')],
 test='''package service

import (
	"net/http"
	"net/http/httptest"
	"regexp"
	"testing"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
)

func TestVerifDemo(t *testing.T) {
	out := output.NewMock(parser.NewMock())
	a := &httpRoute{path: regexp.MustCompile("^/item/(.+)$"), parameters: []string{"id"}, output: out}
	b := &httpRoute{path: regexp.MustCompile("^/item/all$"), output: out}
	s := &Http{routes: []*httpRoute{a, b}}
	if r := s.getMatchingRoute(httptest.NewRequest(http.MethodGet, "/item/all", nil)); r != a {
		t.Fatal("not the first configured route")
	}
}
'''),
dict(id='c21-wrapped-not-found', property='C21', pkg='pkg/service',
 needs='an output that reports a missing record with an error that wraps it',
 breaks='a wrapped not-found error is answered with the status 500',
 edits=[('pkg/service/http.go', 'if errors.Is(err, record.RecordNotFoundError) {', 'if err == record.RecordNotFoundError {')],
 test='''package service

import (
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"regexp"
	"testing"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

type dOut struct{ output.Output }

func (dOut) Handle(params map[string]string, payload []byte, sendError func(err error) error, sendSucces func() io.Writer) error {
	return sendError(fmt.Errorf("nothing here: %w", record.RecordNotFoundError))
}

func TestVerifDemo(t *testing.T) {
	s := &Http{config: &HttpConfig{ErrorsType: "application/json", Logger: logrus.NewEntry(logrus.New())}}
	s.routes = []*httpRoute{{path: regexp.MustCompile("^/a$"), output: dOut{output.NewMock(parser.NewMock())}, config: HttpRouteConfig{Path: "/a"}}}
	w := httptest.NewRecorder()
	s.getHandlerFunc()(w, httptest.NewRequest(http.MethodGet, "/a", nil))
	if w.Code != 404 {
		t.Fatalf("status %d", w.Code)
	}
}
'''),
]
