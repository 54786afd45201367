REC = '''
type dRec struct {
	pos int64
	m   map[string]interface{}
}

func (r dRec) All() (map[string]interface{}, error) {
	c := map[string]interface{}{}
	for k, v := range r.m {
		c[k] = v
	}
	return c, nil
}
func (r dRec) Get(p string) (interface{}, error) { return r.m[p], nil }
func (r dRec) Position() record.Position          { return r.pos }
'''
seeds = [
dict(id='c01-failed-flush', property='C01', pkg='pkg/index/wildcard',
 needs='a write to the disk which fails',
 breaks='the buffered bytes are forgotten before they are known to be on the disk, so a failed flush loses what was written',
 edits=[('pkg/index/wildcard/stream.go', '''	size, err := stream.stream.WriteAt(stream.buffer, stream.bufferOffset)
	if err != nil {
		return err
	}
	if size != len(stream.buffer) {
		return fmt.Errorf("Expected to write %v bytes, wrote %v", len(stream.buffer), size)
	}

	stream.bufferOffset = stream.streamSize
	stream.buffer = stream.buffer[:0]

	return nil
''', '''	buffer, offset := stream.buffer, stream.bufferOffset
	stream.bufferOffset = stream.streamSize
	stream.buffer = stream.buffer[:0]

	size, err := stream.stream.WriteAt(buffer, offset)
	if err != nil {
		return err
	}
	if size != len(buffer) {
		return fmt.Errorf("Expected to write %v bytes, wrote %v", len(buffer), size)
	}

	return nil
''')],
 test='''package wildcard

import (
	"bytes"
	"os"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	f, err := os.CreateTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	r, err := os.Open(f.Name()) // cannot be written
	if err != nil {
		t.Fatal(err)
	}
	s := NewStream(r, 0)
	if _, err := s.Add([]byte("abc")); err != nil {
		t.Fatal(err)
	}
	if err := s.Flush(); err == nil {
		t.Fatal("no error")
	}
	b, err := s.Get(0, 3)
	if err != nil || !bytes.Equal(b, []byte("abc")) {
		t.Fatalf("read %q, %v", b, err)
	}
}
'''),
dict(id='c07-null-values', property='C07', pkg='pkg/index',
 needs='a record without the indexed property and a filter on the absent value',
 breaks='records without a value are no longer indexed, so a null filter (a relationship on a null value) finds nothing',
 edits=[('pkg/index/map.go', '''			if value != nil {
				value = reflect.ValueOf(value).Interface()
			}
''', '''			if value == nil {
				continue
			}
			value = reflect.ValueOf(value).Interface()
''')],
 test='''package index

import (
	"testing"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)
'''+REC+'''
func TestVerifDemo(t *testing.T) {
	in := input.NewMock(parser.NewMock(), []record.Record{
		dRec{0, map[string]interface{}{"a": "x"}}, dRec{1, map[string]interface{}{}}, dRec{2, map[string]interface{}{"a": nil}},
	})
	idx, err := NewMap(&MapConfig{Name: "m", Input: "in", Properties: []string{"a"}, Logger: logrus.NewEntry(logrus.New())}, input.List{"in": in})
	if err != nil {
		t.Fatal(err)
	}
	it, err := idx.GetRecordPositions(in, map[string]interface{}{"a": nil})
	if err != nil {
		t.Fatal(err)
	}
	for _, want := range []int64{1, 2} {
		p, err := it()
		if err != nil || p == nil || *p != want {
			t.Fatalf("got %v, %v, want %v", p, err, want)
		}
	}
}
'''),
dict(id='c08-lost-error', property='C08', pkg='pkg/index',
 needs='an input which fails in the middle of its iteration',
 breaks='a read failure ends the iteration as if the file were over: some records are silently missing',
 edits=[('pkg/index/noop.go', '''			if err != nil {
				return nil, err
			}
			if record == nil {
				break
			}
''', '''			if err != nil || record == nil {
				break
			}
''')],
 test='''package index

import (
	"errors"
	"testing"
	"time"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
)
'''+REC+'''
type dIn struct{}

func (dIn) Name() string                                 { return "in" }
func (dIn) Get(record.Position) (record.Record, error)   { return nil, errors.New("no") }
func (dIn) Size() (int64, error)                         { return 1, nil }
func (dIn) ModTime() (time.Time, error)                  { return time.Now(), nil }
func (dIn) Close() error                                 { return nil }
func (dIn) IterateAll() (record.Iterator, func() error, error) {
	n := 0
	return func() (record.Record, error) {
		n++
		if n == 1 {
			return dRec{0, map[string]interface{}{}}, nil
		}
		return nil, errors.New("the disk fails")
	}, func() error { return nil }, nil
}

func TestVerifDemo(t *testing.T) {
	it, err := NewNoop(&NoopConfig{Name: "n"}, input.List{}).GetRecordPositions(dIn{}, map[string]interface{}{})
	if err != nil {
		t.Fatal(err)
	}
	if p, err := it(); err != nil || p == nil {
		t.Fatal(p, err)
	}
	if p, err := it(); err == nil {
		t.Fatalf("the failure is reported as %v", p)
	}
}
'''),
dict(id='c10-single-step', property='C10', pkg='pkg/input/record',
 needs='a second sequence which fails after its first position, while it is behind the first one',
 breaks='the failure of another sequence is taken for its end, and the remaining common positions are silently dropped',
 edits=[('pkg/input/record/join.go', '''					if err != nil {
						return nil, err
					}
					if currentListValue == nil {
						return nil, nil
					}
''', '''					if err != nil || currentListValue == nil {
						return nil, nil
					}
''')],
 test='''package record

import (
	"errors"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	n := 0
	bad := func() (*Position, error) {
		n++
		if n == 1 {
			p := Position(1)
			return &p, nil
		}
		return nil, errors.New("the index fails")
	}
	it := JoinPositionIterators(PositionList{5, 6}.Iterate(), bad)
	if p, err := it(); err == nil {
		t.Fatalf("the failure is reported as %v", p)
	}
}
'''),
dict(id='c15-octal', property='C15', pkg='pkg/parser',
 needs='a number written with leading zeros',
 breaks='the base is guessed from the prefix, so 010 is read as 8 and 0x1f is accepted',
 edits=[('pkg/parser/integer.go', '''	integerValue, err := strconv.Atoi(cleanedValue)
	return int64(integerValue), err''', '''	integerValue, err := strconv.ParseInt(cleanedValue, 0, 64)
	return integerValue, err''')],
 test='''package parser

import "testing"

func TestVerifDemo(t *testing.T) {
	v, err := NewInteger(&IntegerConfig{Name: "i"}).Parse("010")
	if err != nil || v != int64(10) {
		t.Fatalf("010 is read as %v, %v", v, err)
	}
}
'''),
dict(id='c15-trailing-piece', property='C15', pkg='pkg/parser',
 needs='a list ending with its delimiter',
 breaks='the last, empty piece is dropped by the split parser',
 edits=[('pkg/parser/split.go', 'values = strings.Split(value, split.config.GetDelimiter())', 'values = strings.Split(strings.TrimSuffix(value, split.config.GetDelimiter()), split.config.GetDelimiter())')],
 test='''package parser

import "testing"

func TestVerifDemo(t *testing.T) {
	d := ","
	s, err := NewString(&StringConfig{Name: "s"})
	if err != nil {
		t.Fatal(err)
	}
	v, err := NewSplit(&SplitConfig{Name: "l", Delimiter: &d, Parser: "s"}, List{"s": s}).Parse("a,b,")
	if l, ok := v.([]interface{}); err != nil || !ok || len(l) != 3 || l[2] != "" {
		t.Fatalf("got %#v, %v", v, err)
	}
}
'''),
dict(id='c16-overflow', property='C16', pkg='pkg/parser',
 needs='two integers further apart than the largest integer',
 breaks='integers are compared through their difference, which overflows: the smallest comes after the largest',
 edits=[('pkg/parser/parser.go', '		result := aInt < bInt\n', '		result := aInt-bInt < 0\n')],
 test='''package parser

import (
	"math"
	"testing"
)

func TestVerifDemo(t *testing.T) {
	r, err := Compare(int64(math.MinInt64), int64(1))
	if err != nil || r == nil || !*r {
		t.Fatalf("got %v, %v", r, err)
	}
}
'''),
dict(id='c17-bounded-skip', property='C17', pkg='pkg/output',
 needs='an offset above the configured maximal limit',
 breaks='at most the maximal limit of results are skipped, so the later pages all repeat the same results',
 edits=[('pkg/output/json_array.go', 'for i := uint(0); i < offset; i++ {', 'for i := uint(0); i < offset && i < jsonArray.config.Limit.Max; i++ {')],
 test='''package output

import (
	"bytes"
	"encoding/json"
	"io"
	"testing"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
)
'''+REC+'''
func TestVerifDemo(t *testing.T) {
	l := []record.Record{}
	for i := 0; i < 9; i++ {
		l = append(l, dRec{int64(i), map[string]interface{}{"n": i}})
	}
	in := input.NewMock(parser.NewMock(), l)
	idx := index.NewNoop(&index.NoopConfig{Name: "n"}, input.List{})
	o, err := NewJsonArray(&JsonArrayConfig{Name: "o", Input: "in", Limit: JsonArrayLimitConfig{Default: 2, Max: 3, Parameter: "limit"}, Offset: JsonArrayOffsetConfig{Parameter: "offset"}},
		input.List{"in": in}, idx, index.List{}, parser.List{})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	o.Handle(map[string]string{"offset": "6"}, nil, func(e error) error { t.Fatal(e); return nil }, func() io.Writer { return &b })
	var got []map[string]int
	if err := json.Unmarshal(b.Bytes(), &got); err != nil || len(got) != 2 || got[0]["n"] != 6 {
		t.Fatalf("got %s", b.String())
	}
}
'''),
dict(id='c18-empty-value', property='C18', pkg='pkg/output',
 needs='a request which gives an empty text for a filter',
 breaks='a filter with an empty value is dropped: all the records are returned instead of those with an empty value',
 edits=[('pkg/output/json_array.go', '		if !paramExists {\n			continue', '		if !paramExists || paramValue == "" {\n			continue')],
 test='''package output

import (
	"bytes"
	"encoding/json"
	"io"
	"testing"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output/parameter"
	"github.com/rodb-io/rodb/pkg/parser"
)
'''+REC+'''
func TestVerifDemo(t *testing.T) {
	in := input.NewMock(parser.NewMock(), []record.Record{dRec{0, map[string]interface{}{"a": "x"}}, dRec{1, map[string]interface{}{"a": ""}}})
	idx := index.NewNoop(&index.NoopConfig{Name: "n"}, input.List{})
	s, err := parser.NewString(&parser.StringConfig{Name: "s"})
	if err != nil {
		t.Fatal(err)
	}
	o, err := NewJsonArray(&JsonArrayConfig{Name: "o", Input: "in", Limit: JsonArrayLimitConfig{Default: 10, Max: 10, Parameter: "limit"}, Offset: JsonArrayOffsetConfig{Parameter: "offset"},
		Parameters: map[string]*parameter.ParameterConfig{"a": {Property: "a", Index: "n", Parser: "s"}}},
		input.List{"in": in}, idx, index.List{"n": idx}, parser.List{"s": s})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	o.Handle(map[string]string{"a": ""}, nil, func(e error) error { t.Fatal(e); return nil }, func() io.Writer { return &b })
	var got []map[string]interface{}
	if err := json.Unmarshal(b.Bytes(), &got); err != nil || len(got) != 1 || got[0]["a"] != "" {
		t.Fatalf("got %s", b.String())
	}
}
'''),
dict(id='c19-shared-items', property='C19', pkg='pkg/output',
 needs='two list relationships on one record',
 breaks='the memory of the list of one relationship is reused by the next one, which overwrites its items',
 edits=[('pkg/output/json_common.go', '''	for relationshipName, relationshipConfig := range relationships {
''', '''	relationshipItems := make([]map[string]interface{}, 0)
	for relationshipName, relationshipConfig := range relationships {
'''), ('pkg/output/json_common.go', '''		relationshipItems := make([]map[string]interface{}, 0, count)
''', '''		if uint(cap(relationshipItems)) < count {
			relationshipItems = make([]map[string]interface{}, 0, count)
		}
		relationshipItems = relationshipItems[:0]
''')],
 test='''package output

import (
	"bytes"
	"encoding/json"
	"io"
	"testing"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
)
'''+REC+'''
func TestVerifDemo(t *testing.T) {
	parent := input.NewMock(parser.NewMock(), []record.Record{dRec{0, map[string]interface{}{"id": "p"}}})
	child := input.NewMock(parser.NewMock(), []record.Record{
		dRec{0, map[string]interface{}{"p": "p", "n": int64(1)}}, dRec{1, map[string]interface{}{"q": "p", "n": int64(2)}},
	})
	idx := index.NewNoop(&index.NoopConfig{Name: "n"}, input.List{})
	o, err := NewJsonArray(&JsonArrayConfig{Name: "o", Input: "parent", Limit: JsonArrayLimitConfig{Default: 10, Max: 10, Parameter: "limit"}, Offset: JsonArrayOffsetConfig{Parameter: "offset"},
		Relationships: map[string]*relationship.RelationshipConfig{
			"c": {Input: "child", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "p", ChildIndex: "n"}}},
			"d": {Input: "child", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "q", ChildIndex: "n"}}}}},
		input.List{"parent": parent, "child": child}, idx, index.List{"n": idx}, parser.List{})
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	o.Handle(map[string]string{}, nil, func(e error) error { t.Fatal(e); return nil }, func() io.Writer { return &b })
	var got []struct{ C, D []struct{ N int } }
	if err := json.Unmarshal(b.Bytes(), &got); err != nil || len(got) != 1 || len(got[0].C) != 1 || len(got[0].D) != 1 || got[0].C[0].N != 1 || got[0].D[0].N != 2 {
		t.Fatalf("got %s", b.String())
	}
}
'''),
]
