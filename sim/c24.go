package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsontype"
	"github.com/tychoish/birch/jsonx"
	"github.com/tychoish/birch/types"
)

func init() {
	register("C24", "read", 3, c24read)
	register("C24", "damaged", 3, c24damaged)
	register("C24", "written", 3, c24written)
	registerRare("C24", "deep", 4001, c24deep)
}

// jnode is a JSON value as encoding/json reads it.
type jnode struct {
	kind byte // s n b z o a
	s    string
	b    bool
	keys []string
	vals []jnode
}

// refJSON reads the values of a text, which has to be valid.
func refJSON(t *T, text []byte) jnode {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	n, err := refValue(dec)
	if err == nil {
		if _, e := dec.Token(); e != io.EOF {
			err = fmt.Errorf("more than one value: %v", e)
		}
	}
	if err != nil {
		t.Harness("reading valid JSON %q: %v", text, err)
	}
	return n
}

func refValue(dec *json.Decoder) (n jnode, err error) {
	tok, err := dec.Token()
	if err != nil {
		return n, err
	}
	switch v := tok.(type) {
	case string:
		return jnode{kind: 's', s: v}, nil
	case json.Number:
		return jnode{kind: 'n', s: v.String()}, nil
	case bool:
		return jnode{kind: 'b', b: v}, nil
	case nil:
		return jnode{kind: 'z'}, nil
	case json.Delim:
		n.kind = 'a'
		if v == '{' {
			n.kind = 'o'
		}
		for dec.More() {
			if n.kind == 'o' {
				k, err := dec.Token()
				if err != nil {
					return n, err
				}
				n.keys = append(n.keys, k.(string))
			}
			sub, err := refValue(dec)
			if err != nil {
				return n, err
			}
			n.vals = append(n.vals, sub)
		}
		_, err = dec.Token()
		return n, err
	}
	return n, fmt.Errorf("token %v", tok)
}

// jwant is what a value is read as; ok is false if that is not specified:
// strings that are no text, numbers beyond float64, and objects that look
// like extended JSON but are none.
type jwant struct {
	extended bool // as BSON, not as plain JSON
	unknown  bool
	invalid  bool // BSON has no such key or regular expression
	sb       strings.Builder
}

func (w *jwant) str(s string) string {
	if strings.ContainsRune(s, utf8.RuneError) {
		w.unknown = true
	}
	return strconv.Quote(s)
}

func (w *jwant) cstr(s string) {
	if w.extended && strings.Contains(s, "\x00") {
		w.invalid = true
	}
}

func jsonNum(s string) (string, bool) {
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return fmt.Sprintf("n(%d)", i), true
	}
	f, err := strconv.ParseFloat(s, 64)
	return fmt.Sprintf("f(%x)", math.Float64bits(f)), err == nil
}

func (w *jwant) value(n jnode, top bool) {
	switch n.kind {
	case 's':
		w.sb.WriteString(w.str(n.s))
	case 'n':
		s, ok := jsonNum(n.s)
		if !ok {
			w.unknown = true
		}
		w.sb.WriteString(s)
	case 'b':
		fmt.Fprint(&w.sb, n.b)
	case 'z':
		w.sb.WriteString("null")
	case 'a':
		w.sb.WriteByte('[')
		for _, v := range n.vals {
			w.value(v, false)
			w.sb.WriteByte(',')
		}
		w.sb.WriteByte(']')
	case 'o':
		if w.extended && !top && len(n.keys) > 0 && strings.HasPrefix(n.keys[0], "$") {
			if !w.wrapper(n) {
				w.unknown = true
			}
			return
		}
		w.sb.WriteByte('{')
		for i, v := range n.vals {
			w.cstr(n.keys[i])
			w.sb.WriteString(w.str(n.keys[i]) + ":")
			w.value(v, false)
			w.sb.WriteByte(',')
		}
		w.sb.WriteByte('}')
	}
}

// has is true if the object has exactly these fields, of these kinds.
func (n jnode) has(kinds string, keys ...string) bool {
	if n.kind != 'o' || len(n.keys) != len(keys) {
		return false
	}
	for i, k := range keys {
		if n.keys[i] != k || kinds[i] != '*' && n.vals[i].kind != kinds[i] {
			return false
		}
	}
	return true
}

// wrapper writes the BSON value that extended JSON stands for.
func (w *jwant) wrapper(n jnode) bool {
	out := func(format string, args ...any) bool { fmt.Fprintf(&w.sb, format, args...); return true }
	switch {
	case n.has("s", "$oid"):
		var id types.ObjectID
		if len(n.vals[0].s) != 24 {
			return false
		}
		for i := range id {
			b, err := strconv.ParseUint(n.vals[0].s[2*i:2*i+2], 16, 8)
			if err != nil {
				return false
			}
			id[i] = byte(b)
		}
		return out("oid(%x)", id[:])
	case n.has("s", "$date"):
		at, err := time.Parse(time.RFC3339, n.vals[0].s)
		return err == nil && out("date(%d)", at.UnixMilli())
	case n.has("o", "$date"):
		ms, err := strconv.ParseInt(append(n.vals[0].vals, jnode{})[0].s, 10, 64)
		return n.vals[0].has("s", "$numberLong") && err == nil && out("date(%d)", ms)
	case n.has("s", "$numberDecimal"):
		d, ok := decText(n.vals[0].s)
		return ok && out("%s", d)
	case n.has("s", "$numberDouble"):
		switch n.vals[0].s {
		case "NaN":
			return out("f(NaN)")
		case "Infinity":
			return out("f(%x)", math.Float64bits(math.Inf(1)))
		case "-Infinity":
			return out("f(%x)", math.Float64bits(math.Inf(-1)))
		}
	case n.has("o", "$timestamp"):
		ts := n.vals[0]
		if !ts.has("nn", "t", "i") {
			return false
		}
		a, err := strconv.ParseUint(ts.vals[0].s, 10, 32)
		b, err2 := strconv.ParseUint(ts.vals[1].s, 10, 32)
		return err == nil && err2 == nil && out("ts(%d,%d)", a, b)
	case n.has("s", "$symbol"):
		return out("sym(%s)", w.str(n.vals[0].s))
	case n.has("s", "$code"):
		return out("js(%s)", w.str(n.vals[0].s))
	case n.has("so", "$code", "$scope"):
		if sc := n.vals[1]; len(sc.keys) > 0 && strings.HasPrefix(sc.keys[0], "$") {
			return false
		}
		out("jss(%s,", w.str(n.vals[0].s))
		w.value(n.vals[1], false)
		return out(")")
	case n.has("o", "$dbPointer"):
		p := n.vals[0]
		return p.has("ss", "$ref", "$id") && len(p.vals[1].s) == 24 && strings.Trim(p.vals[1].s, "0123456789abcdefABCDEF") == "" && p.vals[0].s != "" &&
			out("dbp(%s,%s)", w.str(p.vals[0].s), strings.ToLower(p.vals[1].s))
	case n.has("o", "$regularExpression"):
		r := n.vals[0]
		if r.has("ss", "pattern", "options") {
			w.cstr(r.vals[0].s + r.vals[1].s)
		}
		return r.has("ss", "pattern", "options") && out("re(%s,%s)", w.str(r.vals[0].s), w.str(r.vals[1].s))
	case n.has("o", "$binary"):
		b := n.vals[0]
		if !b.has("ss", "base64", "subType") {
			return false
		}
		data, err := base64.StdEncoding.DecodeString(b.vals[0].s)
		st, err2 := strconv.ParseUint(b.vals[1].s, 16, 8)
		return err == nil && err2 == nil && len(b.vals[1].s) == 2 && out("bin(%x,%x)", st, data)
	case n.has("b", "$undefined") && n.vals[0].b:
		return out("undefined")
	case n.has("n", "$minKey") && n.vals[0].s == "1":
		return out("minkey")
	case n.has("n", "$maxKey") && n.vals[0].s == "1":
		return out("maxkey")
	}
	return false
}

// jhave renders what was read in the same notation.
func jhave(sb *strings.Builder, v *birch.Value) {
	switch v.Type() {
	case bsontype.String:
		sb.WriteString(strconv.Quote(v.StringValue()))
	case bsontype.Int32:
		fmt.Fprintf(sb, "n(%d)", v.Int32())
	case bsontype.Int64:
		fmt.Fprintf(sb, "n(%d)", v.Int64())
	case bsontype.Double:
		if f := v.Double(); math.IsNaN(f) {
			sb.WriteString("f(NaN)")
		} else {
			fmt.Fprintf(sb, "f(%x)", math.Float64bits(f))
		}
	case bsontype.Boolean:
		fmt.Fprint(sb, v.Boolean())
	case bsontype.Null:
		sb.WriteString("null")
	case bsontype.EmbeddedDocument:
		jhaveDoc(sb, v.MutableDocument())
	case bsontype.Array:
		jhaveArray(sb, v.MutableArray())
	case bsontype.ObjectID:
		id := v.ObjectID()
		fmt.Fprintf(sb, "oid(%x)", id[:])
	case bsontype.DateTime:
		fmt.Fprintf(sb, "date(%d)", v.DateTime())
	case bsontype.Decimal128:
		sb.WriteString(decBits(v.Decimal128()))
	case bsontype.Timestamp:
		a, b := v.Timestamp()
		fmt.Fprintf(sb, "ts(%d,%d)", a, b)
	case bsontype.Symbol:
		fmt.Fprintf(sb, "sym(%q)", v.Symbol())
	case bsontype.JavaScript:
		fmt.Fprintf(sb, "js(%q)", v.JavaScript())
	case bsontype.CodeWithScope:
		code, scope := v.MutableJavaScriptWithScope()
		fmt.Fprintf(sb, "jss(%q,", code)
		jhaveDoc(sb, scope)
		sb.WriteString(")")
	case bsontype.DBPointer:
		ns, id := v.DBPointer()
		fmt.Fprintf(sb, "dbp(%q,%x)", ns, id[:])
	case bsontype.Regex:
		p, o := v.Regex()
		fmt.Fprintf(sb, "re(%q,%q)", p, o)
	case bsontype.Binary:
		st, data := v.Binary()
		fmt.Fprintf(sb, "bin(%x,%x)", st, data)
	case bsontype.Undefined:
		sb.WriteString("undefined")
	case bsontype.MinKey:
		sb.WriteString("minkey")
	case bsontype.MaxKey:
		sb.WriteString("maxkey")
	default:
		fmt.Fprintf(sb, "type(%s)", v.Type())
	}
}

func jhaveDoc(sb *strings.Builder, d *birch.Document) {
	sb.WriteByte('{')
	for e := range d.Iterator() {
		sb.WriteString(strconv.Quote(e.Key()) + ":")
		jhave(sb, e.Value())
		sb.WriteByte(',')
	}
	sb.WriteByte('}')
}

func jhaveArray(sb *strings.Builder, a *birch.Array) {
	sb.WriteByte('[')
	for v := range a.Iterator() {
		jhave(sb, v)
		sb.WriteByte(',')
	}
	sb.WriteByte(']')
}

// jplain renders plain JSON.
func jplain(sb *strings.Builder, v *jsonx.Value) {
	switch v.Type() {
	case jsonx.String:
		s, _ := v.StringValueOK()
		sb.WriteString(strconv.Quote(s))
	case jsonx.NumberInteger:
		i, ok := v.IntOK()
		fmt.Fprintf(sb, "n(%d)", i)
		if !ok {
			sb.WriteString("!")
		}
	case jsonx.NumberDouble:
		f, _ := v.Float64OK()
		fmt.Fprintf(sb, "f(%x)", math.Float64bits(f))
	case jsonx.Bool:
		fmt.Fprint(sb, v.Boolean())
	case jsonx.Null:
		sb.WriteString("null")
	case jsonx.ObjectValue:
		jplainDoc(sb, v.Document())
	case jsonx.ArrayValue:
		jplainArray(sb, v.Array())
	default:
		fmt.Fprintf(sb, "type(%s)", v.Type())
	}
}

func jplainDoc(sb *strings.Builder, d *jsonx.Document) {
	sb.WriteByte('{')
	for e := range d.Iterator() {
		sb.WriteString(strconv.Quote(e.Key()) + ":")
		jplain(sb, e.Value())
		sb.WriteByte(',')
	}
	sb.WriteByte('}')
}

func jplainArray(sb *strings.Builder, a *jsonx.Array) {
	sb.WriteByte('[')
	for v := range a.Iterator() {
		jplain(sb, v)
		sb.WriteByte(',')
	}
	sb.WriteByte(']')
}

const (
	jsonPlain = iota // jsonx
	jsonJSONX        // jsonx, converted
	jsonUnmarshal
	jsonDecoder
	numJSONReaders
)

var jsonReaderNames = []string{"jsonx Reader", "jsonx Reader and DCE.JSONX", "UnmarshalJSON", "json.Decoder"}

// readJSON reads one value of the kind from the stream, and renders it.
func readJSON(t *T, how int, kind byte, r io.Reader) (string, error) {
	var sb strings.Builder
	if how == jsonUnmarshal {
		text, err := io.ReadAll(r)
		if err != nil {
			return "", err
		}
		switch kind {
		case 'o':
			d := birch.DC.New()
			if err = d.UnmarshalJSON(text); err == nil {
				jhaveDoc(&sb, d)
			}
		case 'a':
			a := birch.NewArray()
			if err = a.UnmarshalJSON(text); err == nil {
				jhaveArray(&sb, a)
			}
		default:
			v := new(birch.Value)
			if err = v.UnmarshalJSON(text); err == nil {
				jhave(&sb, v)
			}
		}
		return sb.String(), err
	}
	switch kind {
	case 'o':
		d, err := jsonx.DCE.Reader(r)
		if err != nil {
			return "", err
		}
		if how == jsonJSONX {
			b, err := birch.DCE.JSONX(d)
			if err != nil {
				return "", err
			}
			jhaveDoc(&sb, b)
		} else {
			if d.Len() > 0 && t.Chance(1, 4) {
				d = d.Copy()
			}
			jplainDoc(&sb, d)
		}
	case 'a':
		a, err := jsonx.ACE.Reader(r)
		if err != nil {
			return "", err
		}
		jplainArray(&sb, a)
	default:
		v, err := jsonx.VCE.Reader(r)
		if err != nil {
			return "", err
		}
		jplain(&sb, v)
	}
	return sb.String(), nil
}

var jsonStrings = []string{"", "a", "key", "é", "日本", "😀", "q\"uote", "back\\slash", "new\nline", "\t\r\b\f", "\x00\x01\x1f", "\x7f", "</script>", "\u2028", "$", "/", "'", "{", "]", ",:", "\\u0041", "\\\"", "trailing\\"}

func jsonString(t *T) string {
	s := jsonStrings[t.Int(len(jsonStrings))]
	for t.Chance(1, 4) {
		s += jsonStrings[t.Int(len(jsonStrings))]
	}
	if t.Chance(1, 50) {
		s = strings.Repeat(s+"x", 1000)
	}
	return s
}

// jsonQuote writes a string in one of the ways JSON has for it.
func jsonQuote(t *T, s string) string {
	if t.Chance(1, 2) || len(s) > 100 {
		b, _ := json.Marshal(s)
		return string(b)
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case t.Chance(1, 6) && r > 0xffff:
			fmt.Fprintf(&sb, `\u%04X\u%04x`, 0xd800+(r-0x10000)>>10, 0xdc00+(r-0x10000)&0x3ff)
		case t.Chance(1, 6) && r <= 0xffff || r < ' ':
			fmt.Fprintf(&sb, `\u%04x`, r)
		case r == '"' || r == '\\' || r == '/' && t.Chance(1, 2):
			sb.WriteString(`\` + string(r))
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func jsonSpace(t *T) string {
	if t.Chance(3, 4) {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "   "}[t.Int(5)]
}

func jsonNumber(t *T) string {
	switch t.Int(5) {
	case 0, 1:
		return strconv.FormatInt(genInt64(t), 10)
	case 2:
		return []string{"-0", "0.0", "1.0", "1e3", "1E-3", "0e0", "-1.5e+10", "9223372036854775808", "-9223372036854775809", "1e308", "5e-324", "123456789012345678901234567890", "0.1", "1.7976931348623157e308"}[t.Int(14)]
	default:
		f := genFloat(t)
		if math.IsInf(f, 0) {
			f = 2.5
		}
		return strconv.FormatFloat(f, "eg"[t.Int(2)], -1, 64)
	}
}

// jsonText writes a random JSON value of a kind; 0 is any kind.
func jsonText(t *T, depth int, kind byte) string {
	if kind == 0 {
		kind = "snnbzoaw"[t.Int(8)]
		if depth <= 0 && kind != 'w' {
			kind = "snb"[t.Int(3)]
		}
	}
	switch kind {
	case 's':
		return jsonQuote(t, jsonString(t))
	case 'n':
		return jsonNumber(t)
	case 'b':
		return []string{"true", "false"}[t.Int(2)]
	case 'z':
		return "null"
	case 'w':
		return jsonWrapper(t, depth)
	}
	var sb strings.Builder
	sb.WriteByte("[{"[b2i(kind == 'o')])
	n := t.Int(5)
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(jsonSpace(t))
		if kind == 'o' {
			sb.WriteString(jsonQuote(t, jsonString(t)) + jsonSpace(t) + ":" + jsonSpace(t))
		}
		sb.WriteString(jsonText(t, depth-1, 0) + jsonSpace(t))
	}
	sb.WriteByte("]}"[b2i(kind == 'o')])
	return sb.String()
}

var wrapperKeys = []string{"$oid", "$date", "$numberDecimal", "$timestamp", "$symbol", "$code", "$dbPointer", "$regularExpression", "$binary", "$undefined", "$minKey", "$maxKey", "$numberDouble", "$scope", "$other"}

func jsonBytes(t *T) []byte {
	var b []byte
	for i, n := 0, t.Int(5); i < n; i++ {
		b = append(b, le64(t.U64())...)
	}
	return b[:max(0, len(b)-t.Int(8))]
}

func hexID(t *T) string { return fmt.Sprintf("%016x%08x", t.U64(), uint32(t.U64())) }

func jsonDate(t *T) string {
	at := time.UnixMilli(int64(t.U64()%4e12) - 1e12).UTC()
	if t.Chance(1, 3) {
		at = at.In(time.FixedZone("", (t.Int(27)-13)*3600))
	}
	return at.Format([]string{time.RFC3339, "2006-01-02T15:04:05.000Z07:00"}[t.Int(2)])
}

// jsonWrapper writes extended JSON, sometimes with other values in it than
// those it should have.
func jsonWrapper(t *T, depth int) string {
	key := wrapperKeys[t.Int(len(wrapperKeys))]
	if t.Chance(1, 4) {
		t.Fault("malformed-extended-json")
		s := fmt.Sprintf("{%q:%s", key, jsonText(t, depth-1, 0))
		if t.Chance(1, 3) {
			s += fmt.Sprintf(",%q:%s", wrapperKeys[t.Int(len(wrapperKeys))], jsonText(t, depth-1, 0))
		}
		return s + "}"
	}
	s := func() string { return jsonQuote(t, jsonString(t)) }
	// the parts of an inner object, of which some may be missing or strange
	parts := func(kvs ...string) string {
		var out []string
		for i := 0; i < len(kvs); i += 2 {
			v := kvs[i+1]
			switch t.Int(30) {
			case 0:
				continue
			case 1:
				v = jsonText(t, 1, 0)
			}
			out = append(out, fmt.Sprintf("%q:%s", kvs[i], v))
		}
		return "{" + strings.Join(out, ",") + "}"
	}
	u32 := func() string { return strconv.FormatUint(t.U64()>>32, 10) }
	var v string
	switch key {
	case "$oid":
		v = fmt.Sprintf("%q", hexID(t))
	case "$date":
		v = fmt.Sprintf("%q", jsonDate(t))
		if t.Chance(1, 4) {
			v = parts("$numberLong", fmt.Sprintf("\"%d\"", genInt64(t)))
		}
	case "$numberDecimal":
		v = fmt.Sprintf("%q", decimalText(t))
	case "$numberDouble":
		v = []string{`"NaN"`, `"Infinity"`, `"-Infinity"`}[t.Int(3)]
	case "$timestamp":
		v = parts("t", u32(), "i", u32())
	case "$code":
		if v = s(); t.Chance(1, 2) {
			v += `,"$scope":` + jsonText(t, depth-1, 'o')
		}
	case "$dbPointer":
		v = parts("$ref", s(), "$id", fmt.Sprintf("%q", hexID(t)))
	case "$regularExpression":
		v = parts("pattern", s(), "options", s())
	case "$binary":
		b := jsonBytes(t)
		v = parts("base64", fmt.Sprintf("%q", base64.StdEncoding.EncodeToString(b)), "subType", fmt.Sprintf("\"%02x\"", []int{0, 1, 2, 3, 5, 128, 255}[t.Int(7)]))
	case "$undefined":
		v = "true"
	case "$minKey", "$maxKey":
		v = "1"
	case "$symbol":
		v = s()
	default:
		v = jsonText(t, depth-1, 0)
	}
	t.Probe("extended")
	return fmt.Sprintf("{%q:%s}", key, v)
}

// wantJSON is what reading a valid text gives; false: not specified.
func wantJSON(t *T, text []byte, extended, top bool) (*jwant, jnode) {
	n := refJSON(t, text)
	w := &jwant{extended: extended}
	w.value(n, top)
	return w, n
}

// jsonSource is a stream of the text that may be cut or fail: the part that
// arrives, and what ends it.
func jsonSource(t *T, text []byte) (r *Reader, arrives []byte, end error) {
	cut, end := len(text), io.EOF
	switch t.Int(3) {
	case 1:
		if cut > 0 {
			cut = t.Int(cut)
			t.Fault("stream-cut")
		}
		r = NewReader(t, text[:cut])
	case 2:
		r = NewReader(t, text)
		r.failAt, r.err = t.Int(cut+1), errDisk
		cut, end = r.failAt, errDisk
	default:
		r = NewReader(t, text)
	}
	return r, text[:cut], end
}

func c24read(t *T) {
	if t.Chance(1, 3) {
		c24stream(t)
		return
	}
	kind := "oooav"[t.Int(5)]
	text := jsonSpace(t) + jsonText(t, 3, map[byte]byte{'v': 0, 'o': 'o', 'a': 'a'}[kind]) + jsonSpace(t)
	r, arrives, end := jsonSource(t, []byte(text))
	checkJSON(t, kind, r, arrives, end)
}

// checkJSON reads a text that may be anything.
func checkJSON(t *T, kind byte, r io.Reader, text []byte, end error) {
	how := t.Int(jsonDecoder)
	if how == jsonJSONX && kind != 'o' {
		how = jsonPlain
	}
	name := jsonReaderNames[how]
	before := allocated()
	t.phase = "reading JSON"
	have, err := readJSON(t, how, kind, r)
	t.phase = ""
	memoryRule(t, name, before, 16*len(text))
	t.Check()
	if end != io.EOF {
		if !errors.Is(err, end) {
			t.Fail("error-lost", "%s: the stream failed after %d bytes, the result is %v", name, len(text), err)
		}
		t.Probe("source-failed")
		return
	}
	if !json.Valid(text) {
		if err == nil {
			t.Fail("accepted-invalid", "%s: %s is read as %s", name, show(string(text)), show(have))
		}
		t.Probe("rejected")
		return
	}
	w, n := wantJSON(t, text, how != jsonPlain, kind == 'o')
	if kind == 'o' && n.kind != 'o' || kind == 'a' && n.kind != 'a' {
		if err == nil {
			t.Fail("accepted-invalid", "%s (%c): %s is read as %s", name, kind, show(string(text)), show(have))
		}
		return
	}
	if w.unknown {
		t.Probe("unspecified")
		return
	}
	if w.invalid {
		if err == nil {
			t.Fail("accepted-invalid", "%s: %s is read as %s", name, show(string(text)), show(have))
		}
		return
	}
	want := w.sb.String()
	if err != nil {
		t.Fail("refused", "%s: %s is refused: %v", name, show(string(text)), err)
	}
	if have != want {
		t.Fail("changed", "%s: %s is read as %s instead of %s", name, show(string(text)), show(have), show(want))
	}
	t.Probe("read-" + []string{"jsonx", "JSONX", "UnmarshalJSON"}[how])
}

// c24stream: documents one after the other, taken off the stream one by one.
func c24stream(t *T) {
	var texts []string
	var all []byte
	for i, n := 0, t.Int(5); i < n; i++ {
		s := jsonSpace(t) + jsonText(t, 2, 'o')
		texts = append(texts, s)
		all = append(all, s...)
	}
	r, arrives, end := jsonSource(t, all)
	dec := json.NewDecoder(r)
	at := 0
	for i := 0; ; i++ {
		d := birch.DC.New()
		t.phase = "reading JSON"
		err := dec.Decode(d)
		t.phase = ""
		t.Check()
		if i == len(texts) || at+len(texts[i]) > len(arrives) {
			rest := bytes.TrimSpace(arrives[at:])
			want := end
			if end == io.EOF && len(rest) > 0 {
				want = io.ErrUnexpectedEOF
			}
			if !errors.Is(err, want) {
				t.Fail("error-lost", "document %d of %d, of which %d bytes arrive: %v instead of %v", i, len(texts), len(rest), err, want)
			}
			t.Probe("stream-end")
			return
		}
		w, _ := wantJSON(t, []byte(texts[i]), true, true)
		at += len(texts[i])
		if w.unknown {
			if err != nil {
				return
			}
			continue
		}
		if w.invalid {
			if err == nil {
				t.Fail("accepted-invalid", "document %d, %s, is read", i, show(texts[i]))
			}
			return
		}
		if err != nil {
			t.Fail("refused", "document %d, %s, is refused: %v", i, show(texts[i]), err)
		}
		var sb strings.Builder
		jhaveDoc(&sb, d)
		if have, want := sb.String(), w.sb.String(); have != want {
			t.Fail("changed", "document %d, %s, is read as %s instead of %s", i, show(texts[i]), show(have), show(want))
		}
		t.Probe("read-stream")
	}
}

// damageText changes a text somewhere.
func damageText(t *T, text []byte) []byte {
	if t.Chance(1, 2) {
		out, _ := damage(t, text)
		return out
	}
	out := append([]byte(nil), text...)
	tokens := []string{`"`, `\`, `{`, `}`, `[`, `]`, `,`, `:`, `-`, `.`, `e`, `0`, `01`, `null`, `nul`, `tru`, `1e999`, `\u12`, `\ud800`, ` `, "\n", "\x00", "\xff", `{"$oid":`, `{"$timestamp":`, `{"$code":`, `"$scope":`, `{"$binary":`, `[[`, `{"":`, `$`}
	for i, n := 0, 1+t.Int(3); i < n; i++ {
		at := t.Int(len(out) + 1)
		end := at
		if t.Chance(1, 2) {
			end = min(len(out), at+1+t.Int(4))
		}
		t.Fault("token-damaged")
		out = append(out[:at:at], append([]byte(tokens[t.Int(len(tokens))]), out[end:]...)...)
	}
	return out
}

func c24damaged(t *T) {
	kind := "oooav"[t.Int(5)]
	text := damageText(t, []byte(jsonText(t, 3, map[byte]byte{'v': 0, 'o': 'o', 'a': 'a'}[kind])))
	checkJSON(t, kind, NewReader(t, text), text, io.EOF)
}

// jsonDoc is a document of values of all types.
func jsonDoc(t *T, depth int) *birch.Document {
	d := birch.DC.New()
	for i, n := 0, t.Int(5); i < n; i++ {
		key := jsonString(t)
		if strings.Contains(key, "\x00") || i == 0 && strings.HasPrefix(key, "$") {
			key = "key" + strconv.Itoa(i)
		}
		d.Append(birch.EC.Value(key, jsonValue(t, depth)))
	}
	return d
}

func jsonCString(t *T) string { return strings.ReplaceAll(jsonString(t), "\x00", "") }

func jsonValue(t *T, depth int) *birch.Value {
	n := 20
	if depth <= 0 {
		n = 17
	}
	id := func() types.ObjectID {
		id, err := types.ObjectIDFromHex(hexID(t))
		if err != nil {
			t.Harness("%v", err)
		}
		return id
	}
	switch t.Int(n) {
	case 0:
		return birch.VC.String(jsonString(t))
	case 1:
		return birch.VC.Int32(int32(genInt64(t)))
	case 2:
		return birch.VC.Int64(genInt64(t))
	case 3:
		if t.Chance(1, 10) {
			return birch.VC.Double(math.NaN())
		}
		return birch.VC.Double(genFloat(t))
	case 4:
		return birch.VC.Boolean(t.Chance(1, 2))
	case 5:
		return birch.VC.Null()
	case 6:
		b := jsonBytes(t)
		return birch.VC.BinaryWithSubtype(b, []byte{0, 1, 2, 3, 5, 128, 255}[t.Int(7)])
	case 7:
		return birch.VC.Undefined()
	case 8:
		return birch.VC.ObjectID(id())
	case 9:
		if t.Chance(1, 4) {
			return birch.VC.DateTime(genInt64(t))
		}
		return birch.VC.DateTime(int64(t.U64()%4e12) - 1e12)
	case 10:
		return birch.VC.Regex(jsonCString(t), jsonCString(t))
	case 11:
		return birch.VC.DBPointer("c"+jsonString(t), id())
	case 12:
		return birch.VC.JavaScript(jsonString(t))
	case 13:
		return birch.VC.Symbol(jsonString(t))
	case 14:
		return birch.VC.Timestamp(uint32(t.U64()), uint32(t.U64()))
	case 15:
		return birch.VC.Decimal128(genDecimal(t))
	case 16:
		if t.Chance(1, 2) {
			return birch.VC.MinKey()
		}
		return birch.VC.MaxKey()
	case 17:
		return birch.VC.Document(jsonDoc(t, depth-1))
	case 18:
		return birch.VC.CodeWithScope(jsonString(t), jsonDoc(t, depth-1))
	default:
		a := birch.NewArray()
		for i, n := 0, t.Int(4); i < n; i++ {
			a.Append(jsonValue(t, depth-1))
		}
		return birch.VC.Array(a)
	}
}

// c24written: documents written as JSON to a stream, which may fail, say what
// they hold, and are read back as they were.
func c24written(t *T) {
	var docs []string
	var all []byte
	w := NewWriter(t)
	failed := -1
	if t.Chance(1, 3) {
		failed = 1 + t.Int(4)
		w.plan = func(n int, p []byte) (int, error) {
			if n < failed {
				return len(p), nil
			}
			t.Fault("write-error")
			return t.Int(len(p)), errDisk
		}
	}
	enc := json.NewEncoder(w)
	for i, n := 0, 1+t.Int(4); i < n; i++ {
		d := jsonDoc(t, 2)
		if t.Chance(1, 2) { // as it comes out of storage
			b, err := d.MarshalBSON()
			if err != nil {
				t.Harness("%v", err)
			}
			d = toDoc(t, b)
		}
		var sb strings.Builder
		jhaveDoc(&sb, d)
		var text []byte
		var err error
		if t.Chance(1, 2) {
			text, err = d.MarshalJSON()
			t.Check()
			if err == nil && !json.Valid(text) {
				t.Fail("invalid-written", "%s is written as %s", show(sb.String()), show(string(text)))
			}
			if err == nil {
				_, err = w.Write(append(text, '\n'))
			}
		} else {
			err = enc.Encode(d)
		}
		t.Check()
		if failed >= 0 && i+1 >= failed {
			if !errors.Is(err, errDisk) {
				t.Fail("error-lost", "the write failed, the result is %v", err)
			}
			t.Probe("write-failed")
			return
		}
		if err != nil {
			t.Fail("not-written", "%s is not written: %v", show(sb.String()), err)
		}
		docs = append(docs, sb.String())
	}
	all = w.buf
	for i, line := range bytes.Split(bytes.TrimSuffix(all, []byte("\n")), []byte("\n")) {
		if i >= len(docs) {
			t.Fail("changed", "%d documents are written as %q", len(docs), all)
		}
		if want, _ := wantJSON(t, line, true, true); want.unknown || want.invalid || want.sb.String() != docs[i] {
			t.Fail("changed", "%s is written as %s", show(docs[i]), show(string(line)))
		}
	}
	dec := json.NewDecoder(NewReader(t, all))
	for _, want := range docs {
		d := birch.DC.New()
		err := dec.Decode(d)
		t.Check()
		if err != nil {
			t.Fail("does-not-read-back", "%s: %v", show(want), err)
		}
		var sb strings.Builder
		jhaveDoc(&sb, d)
		if have := sb.String(); have != want {
			t.Fail("does-not-read-back", "%s becomes %s", show(want), show(have))
		}
	}
	t.Probe("written")
}

// c24deep: values nested deeper than any stack allows (see c20deep).
func c24deep(t *T) {
	depth := []int{3, 50, 2000, 50000, 1000000}[t.Int(5)]
	t.Fault("deep-nesting")
	// each level is read again for each level above it
	steps := int64(depth)*2000 + int64(min(depth, 2000)*min(depth, 2000)*60)
	runtime.SimAllowSteps(uint64(steps))
	runtime.SimHold(steps)
	open, end := "[", "]"
	if t.Chance(1, 2) {
		open, end = `{"a":`, "}"
	}
	text := strings.Repeat(open, depth) + "1" + strings.Repeat(end, depth)
	if t.Chance(1, 3) {
		text = strings.Repeat(open, depth)
	}
	whole := json.Valid([]byte(text))
	var err error
	if open == "[" {
		_, err = jsonx.ACE.Reader(NewReader(t, []byte(text)))
	} else {
		_, err = jsonx.DCE.Reader(NewReader(t, []byte(text)))
	}
	t.Check()
	switch {
	case err != nil:
		t.Probe("too-deep")
		if whole && depth <= 50 {
			t.Fail("valid-refused", "a text of %d levels is refused: %v", depth, err)
		}
		return
	case !whole && depth <= 2000:
		t.Fail("accepted-invalid", "%d levels that are not closed are read", depth)
	}
	if open == "[" {
		err = birch.NewArray().UnmarshalJSON([]byte(text))
	} else {
		err = birch.DC.New().UnmarshalJSON([]byte(text))
	}
	if err != nil && depth <= 50 {
		t.Fail("valid-refused", "a text of %d levels is refused: %v", depth, err)
	}
	t.Probe("deep")
}
