package props

import (
	"bytes"
	"fmt"
	"reflect"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C28",
		Level: "exploration",
		Rule:  "packages of unusual, misplaced, contradictory and damaged markup; what the library accepts is saved, read again and saved again; non-trivial: the input was accepted, could be saved and its body holds at least three items",
		Assumptions: []string{
			"a geometry has a preset name, as the format requires (one without is not written and therefore left out of the comparison)",
			"an accepted document which cannot be saved since a part of its package is damaged says so with an error",
		},
		Subs: []pbt.Sub{
			{Name: "markup", Quick: 3000, Weight: 3, Fn: func(t *pbt.T) { c28(t, damaged(t)) }},
			{Name: "variety", Quick: 2000, Weight: 2, Fn: func(t *pbt.T) {
				g := docgen.New(t)
				doc := g.Document()
				mutateTree(t, doc, t.Int(1, 1+t.Size/6))
				c28(t, g.Build(doc, docgen.RandomStyle(t), false).Zip)
			}},
			wideSub("wide", 80, c28wide),
		},
	})
}

func c28(t *pbt.T, data []byte) {
	d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		t.Label("refused")
		return
	}
	noPreset(reflect.ValueOf(&d.Document.Body.Items))
	var first bytes.Buffer
	if _, err := d.WriteTo(&first); err != nil {
		t.Label("cannot be saved") // a part of the package is damaged
		return
	}
	t.Label("accepted")
	if len(d.Document.Body.Items) > 2 {
		t.NonTrivial()
	}
	p1 := rawParts(t, "saved", first.Bytes())
	e, err := docx.Parse(bytes.NewReader(first.Bytes()), int64(first.Len()))
	if err != nil {
		t.Failf("refused", "the saved document is refused: %v\n%s", err, p1[oox.DocPart])
	}
	if len(d.Document.Body.Items) != len(e.Document.Body.Items) {
		t.Failf("items", "%d items became %d", len(d.Document.Body.Items), len(e.Document.Body.Items))
	}
	for i := range d.Document.Body.Items {
		a, b := d.Document.Body.Items[i], e.Document.Body.Items[i]
		if diff := fieldDiff(fmt.Sprintf("item %d", i), reflect.ValueOf(a), reflect.ValueOf(b)); diff != "" {
			t.Failf("field", "read again: %s", diff)
		}
		sameStr(t, "plain", "plain text", stringItem(a), stringItem(b))
	}
	var second bytes.Buffer
	if _, err := e.WriteTo(&second); err != nil {
		t.Failf("save", "the reopened document cannot be saved: %v", err)
	}
	p2 := rawParts(t, "saved again", second.Bytes())
	for n, a := range p1 {
		b, ok := p2[n]
		if !ok {
			t.Failf("part", "part %q is missing in the second package", n)
		}
		if n == oox.DocPart || n == oox.RelsPart {
			x, y := treeOf(t, n, a), treeOf(t, n, b)
			sameStr(t, "tree", n, x, y)
			continue
		}
		if !bytes.Equal(a, b) {
			t.Failf("part", "part %q is another one in the second package", n)
		}
	}
	for n := range p2 {
		if _, ok := p1[n]; !ok {
			t.Failf("part", "part %q is only in the second package", n)
		}
	}
}

func rawParts(t *pbt.T, what string, data []byte) map[string][]byte {
	p, err := oox.OpenZip(data)
	if err != nil {
		t.Failf("zip", "%s: %v", what, err)
	}
	return p.Parts
}

func treeOf(t *pbt.T, n string, data []byte) string {
	root, err := xt.Parse(data)
	if err != nil {
		t.Failf("malformed", "%s: %v", n, err)
	}
	return fmt.Sprint(root.Dump())
}

// noPreset takes away geometries without the preset, which they must
// have and without which they are not saved.
func noPreset(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			noPreset(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			noPreset(v.Index(i))
		}
	case reflect.Struct:
		if p, ok := v.Addr().Interface().(*docx.PICSpPr); ok && p.PrstGeom != nil && p.PrstGeom.Prst == "" {
			p.PrstGeom = nil
		}
		if g, ok := v.Addr().Interface().(*docx.APrstGeom); ok && g.Prst == "" {
			g.AvLst = nil
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "XMLName" {
				noPreset(v.Field(i))
			}
		}
	}
}
