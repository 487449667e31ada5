package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/jsonx"
)

func init() { register("C24", "built", 1, c24built) }

// A JSON value that was built, with what it is as JSON, and as BSON.
type jbuilt struct {
	v     *jsonx.Value
	plain string
	bson  string
	bad   bool // holds something nil
	inf   bool // holds what JSON has no number for
}

func (b *jbuilt) both(format string, args ...any) {
	b.plain = fmt.Sprintf(format, args...)
	b.bson = b.plain
}

func jbuild(t *T, depth int) (b jbuilt) {
	n := 12
	if depth > 0 {
		n = 17
	}
	float := func(plain, bson float64) {
		b.plain, b.bson = fmt.Sprintf("f(%x)", math.Float64bits(plain)), fmt.Sprintf("f(%x)", math.Float64bits(bson))
		if b.inf = math.IsInf(bson, 0) || math.IsNaN(bson); b.inf && math.IsNaN(bson) {
			b.bson = "f(NaN)"
		}
	}
	switch t.Int(n) {
	case 0:
		s := jsonString(t)
		b.v = jsonx.VC.String(s)
		b.both("%s", strconv.Quote(s))
	case 1, 2:
		i := genInt64(t)
		b.v = jsonx.VC.Int(int(i))
		b.both("n(%d)", i)
	case 3, 4:
		i := int32(genInt64(t))
		b.v = jsonx.VC.Int32(i)
		b.both("n(%d)", i)
	case 5:
		i := genInt64(t)
		b.v = jsonx.VC.Int64(i)
		b.both("n(%d)", i)
	case 6, 7:
		f := genFloat(t)
		b.v = jsonx.VC.Float64(f)
		float(f, f)
	case 8:
		f := float32(genFloat(t))
		b.v = jsonx.VC.Float32(f)
		p, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'g', -1, 32), 64)
		float(p, float64(f))
	case 9:
		b.v = jsonx.VC.Nil()
		b.both("null")
	case 10:
		x := t.Int(2) == 0
		b.v = jsonx.VC.Boolean(x)
		b.both("%v", x)
	case 11:
		if !t.Chance(1, 4) {
			b.v = jsonx.VC.String("x")
			b.both(`"x"`)
			break
		}
		b.bad = true
		switch t.Int(3) {
		case 0:
			b.v = nil
		case 1:
			b.v = jsonx.VC.Object(nil)
		default:
			b.v = jsonx.VC.Array(nil)
		}
	case 12, 13, 14:
		d, o := jbuildDoc(t, depth-1)
		b = o
		b.v = jsonx.VC.Object(d)
	default:
		a := jsonx.AC.New()
		var plain, bson strings.Builder
		for i, n := 0, t.Int(4); i < n; i++ {
			e := jbuild(t, depth-1)
			a.Append(e.v)
			plain.WriteString(e.plain + ",")
			bson.WriteString(e.bson + ",")
			b.bad = b.bad || e.bad
			b.inf = b.inf || e.inf
		}
		if a.Len() > 0 && !b.bad && t.Chance(1, 3) {
			a = a.Copy()
		}
		b.v = jsonx.VC.Array(a)
		b.plain, b.bson = "["+plain.String()+"]", "["+bson.String()+"]"
	}
	return b
}

func jbuildDoc(t *T, depth int) (*jsonx.Document, jbuilt) {
	d := jsonx.DC.New()
	var b jbuilt
	var plain, bson strings.Builder
	var keys []string
	for i, n := 0, t.Int(5); i < n; i++ {
		e := jbuild(t, depth)
		key := strings.ReplaceAll(jsonCString(t), "$", "S") // no extended JSON
		switch {
		case e.bad && t.Chance(1, 4):
			d.Append(nil)
		default:
			d.Append(jsonx.EC.Value(key, e.v))
		}
		keys = append(keys, key)
		plain.WriteString(strconv.Quote(key) + ":" + e.plain + ",")
		bson.WriteString(strconv.Quote(key) + ":" + e.bson + ",")
		b.bad = b.bad || e.bad
		b.inf = b.inf || e.inf
	}
	b.plain, b.bson = "{"+plain.String()+"}", "{"+bson.String()+"}"
	if b.bad {
		return d, b
	}
	t.Check()
	if d.Len() != len(keys) || d.ElementAtIndex(len(keys)) != nil || d.KeyAtIndex(len(keys)) != "" {
		t.Fail("built", "a document of %d elements has %d, and %v after them", len(keys), d.Len(), d.ElementAtIndex(len(keys)))
	}
	for i, key := range keys {
		if d.KeyAtIndex(i) != key || d.ElementAtIndex(i).Key() != key {
			t.Fail("built", "element %d is %q, not %q", i, d.KeyAtIndex(i), key)
		}
	}
	if t.Chance(1, 2) { // a copy has elements of its own
		c := d.Copy()
		c.Append(jsonx.EC.Nil("other"))
		if d.Len() != len(keys) || c.Len() != len(keys)+1 {
			t.Fail("built", "a copy and its original have %d and %d elements, of %d", c.Len(), d.Len(), len(keys))
		}
		if t.Chance(1, 2) {
			d.Append(jsonx.EC.Boolean("more", true))
			if c.KeyAtIndex(len(keys)) != "other" {
				t.Fail("built", "what is appended to the original is in the copy: %q", c.KeyAtIndex(len(keys)))
			}
			b.plain = b.plain[:len(b.plain)-1] + `"more":true,}`
			b.bson = b.bson[:len(b.bson)-1] + `"more":true,}`
		} else {
			d = c
			b.plain = b.plain[:len(b.plain)-1] + `"other":null,}`
			b.bson = b.bson[:len(b.bson)-1] + `"other":null,}`
		}
		t.Probe("copied")
	}
	return d, b
}

// c24built: JSON documents that are built, not read.
func c24built(t *T) {
	d, b := jbuildDoc(t, 3)
	t.Check()
	text, err := d.MarshalJSON()
	switch {
	case b.bad || b.inf:
		if err == nil && !json.Valid(text) {
			t.Fail("invalid-written", "a built document is written as %q", text)
		}
		t.Probe("built-unwritable")
	case err != nil:
		t.Fail("not-written", "%s is not written: %v", show(b.plain), err)
	case !json.Valid(text):
		t.Fail("invalid-written", "%s is written as %q", show(b.plain), text)
	default:
		if w, _ := wantJSON(t, text, false, false); w.sb.String() != b.plain {
			t.Fail("changed", "%s is written as %q", show(b.plain), text)
		}
		back, err := jsonx.DCE.Reader(NewReader(t, text))
		if err != nil {
			t.Fail("does-not-read-back", "%s: %v", show(b.plain), err)
		}
		var sb strings.Builder
		jplainDoc(&sb, back)
		if sb.String() != b.plain {
			t.Fail("changed", "%s is written as %q and read back as %s", show(b.plain), text, show(sb.String()))
		}
		again, err := back.MarshalJSON()
		if err != nil || !bytes.Equal(again, text) {
			t.Fail("changed", "%q is read and written as %q (%v)", text, again, err)
		}
		t.Probe("built-written")
	}
	doc, err := birch.DCE.JSONX(d)
	t.Check()
	if b.bad {
		if err == nil {
			if _, err := doc.MarshalBSON(); err != nil {
				t.Fail("built", "a converted document is not encoded: %v", err)
			}
		}
		t.Probe("built-nil")
		return
	}
	if err != nil {
		t.Fail("not-converted", "%s is not converted: %v", show(b.bson), err)
	}
	var sb strings.Builder
	jhaveDoc(&sb, doc)
	if sb.String() != b.bson {
		t.Fail("changed", "%s is converted to %s", show(b.bson), show(sb.String()))
	}
	t.Probe("built-converted")
}
