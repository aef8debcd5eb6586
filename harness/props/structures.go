package props

import (
	"bytes"
	"fmt"
	"path"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/pbt"
)

// structures is a document put together from the exported structure types
// with all of their fields set at random, its links and pictures
// referring to relationships of the document.
func structures(t *pbt.T) (*docx.Docx, *filler) {
	f := newFiller(t)
	var items []interface{}
	for t.More(len(items), 6, 3) {
		switch t.Weighted(3, 2, 1, 4) {
		case 0:
			f.depth = pbt.Pick(t, 0, 3)
			items = append(items, f.item("paragraph"))
		case 1:
			f.depth = pbt.Pick(t, 1, 3)
			items = append(items, f.item("table"))
		case 2:
			items = append(items, f.item("sect"))
		case 3:
			f.depth = 0
			d := new(docx.Drawing)
			f.fill(reflect.ValueOf(d).Elem())
			items = append(items, &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{d}}}})
		}
		f.depth = 0
	}
	d := docx.New().WithDefaultTheme()
	p := d.AddParagraph()
	var links, pics []string
	for i := t.Int(1, 3); i > 0; i-- {
		links = append(links, p.AddLink("l", docgen.Word(t)+fmt.Sprint(i)).ID)
	}
	for i := t.Int(1, 3); i > 0; i-- {
		img := docgen.Image(t)
		r, err := p.AddInlineDrawing(img)
		if err != nil {
			t.Failf("picture", "%v", err)
		}
		pics = append(pics, r.Children[0].(*docx.Drawing).Inline.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
	}
	d.Document.Body.Items = items
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			switch x := v.Addr().Interface().(type) {
			case *docx.Hyperlink:
				if x.ID != x.Anchor {
					x.ID = links[t.Int(0, len(links)-1)]
				}
			case *docx.ABlip:
				x.Embed = ""
				if t.Chance(5, 6) {
					x.Embed = pics[t.Int(0, len(pics)-1)]
				}
			}
			for i := 0; i < v.NumField(); i++ {
				if !skipField(v.Type().Field(i)) {
					walk(v.Field(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(&items))
	return parse(t, save(t, d)), f
}

// sameStructures compares an item with its copy in another document, what
// they refer to instead of the identifiers.
func sameStructures(t *pbt.T, what string, i int, a, b interface{}, from, to *docx.Docx) {
	target := func(d *docx.Docx, id string) string {
		s, err := d.ReferTarget(id)
		if err != nil {
			return "nothing: " + err.Error()
		}
		return s
	}
	picture := func(d *docx.Docx, id string) []byte {
		s := target(d, id)
		m := d.Media(path.Base(s))
		if m == nil || !strings.HasSuffix(s, "media/"+m.Name) {
			return nil
		}
		return m.Data
	}
	renamed := false
	by := func(key string, x, y reflect.Value) (bool, string) {
		switch key {
		case "AGraphicData.Pic": // gets a new name
			renamed = renamed || !x.IsNil()
		case "Hyperlink.ID": // with the anchor it is compared below
			return true, ""
		case "ABlip.Embed":
			if (x.String() == "") != (y.String() == "") {
				return true, fmt.Sprintf("%q became %q", x, y)
			}
			if x.String() == "" {
				return true, ""
			}
			p, q := picture(from, x.String()), picture(to, y.String())
			if p == nil || !bytes.Equal(p, q) {
				return true, fmt.Sprintf("the picture of %q (%d bytes) is another one for %q (%d bytes)", x, len(p), y, len(q))
			}
			return true, ""
		case "WPDocPr.ID", "WPDocPr.Name", "NonVisualProperties.ID", "NonVisualProperties.Name":
			return true, ""
		}
		return false, ""
	}
	if diff := fieldDiffBy(fmt.Sprintf("item %d", i), reflect.ValueOf(a), reflect.ValueOf(b), by); diff != "" {
		t.Failf("structure", "%s: %s", what, diff)
	}
	// the links, in order
	var la, lb []string
	hyperlinks(reflect.ValueOf(a), from, target, &la)
	hyperlinks(reflect.ValueOf(b), to, target, &lb)
	sameStr(t, "links", what+": links", strings.Join(la, "\n"), strings.Join(lb, "\n"))
	if !renamed {
		sameStr(t, "plain", what+": plain text", stringItem(a), stringItem(b))
	}
}

func hyperlinks(v reflect.Value, d *docx.Docx, target func(*docx.Docx, string) string, out *[]string) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			hyperlinks(v.Elem(), d, target, out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			hyperlinks(v.Index(i), d, target, out)
		}
	case reflect.Struct:
		if h, ok := v.Addr().Interface().(*docx.Hyperlink); ok {
			if h.ID == h.Anchor {
				*out = append(*out, "bookmark "+h.ID)
			} else {
				*out = append(*out, "link "+target(d, h.ID)+" # "+h.Anchor)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if !skipField(v.Type().Field(i)) {
				hyperlinks(v.Field(i), d, target, out)
			}
		}
	}
}

func c12structures(t *pbt.T) {
	src, f := structures(t)
	dst := docx.New().WithDefaultTheme()
	switch t.Int(0, 3) {
	case 0:
		dst, _ = structures(t)
	case 1:
		dst.AddParagraph().AddLink("a", "b")
		if _, err := dst.AddParagraph().AddInlineDrawing(docgen.Image(t)); err != nil {
			t.Failf("picture", "%v", err)
		}
	case 2:
		dst = src
	}
	n := len(dst.Document.Body.Items)
	items := src.Document.Body.Items
	sd := save(t, src)
	dst.AppendFile(src)
	got := dst.Document.Body.Items
	if len(got) != n+len(items) {
		t.Failf("items", "%d items appended to %d are %d", len(items), n, len(got))
	}
	back := parse(t, save(t, dst))
	if len(back.Document.Body.Items) != n+len(items) {
		t.Failf("items", "%d items appended to %d are %d when saved", len(items), n, len(back.Document.Body.Items))
	}
	for i, a := range items {
		sameStructures(t, "appended", i, a, got[n+i], src, dst)
		sameStructures(t, "appended and saved", i, a, back.Document.Body.Items[n+i], src, back)
	}
	if dst != src {
		sameParts(t, "source-changed", "the source after appending it", sd, save(t, src))
	}
	if f.set >= 20 && len(f.types) >= 5 {
		t.NonTrivial()
	}
}

func c13structures(t *pbt.T) {
	src, _ := structures(t)
	items := src.Document.Body.Items
	sep := map[interface{}]bool{}
	den := pbt.Pick(t, 2, 1, 4)
	for _, it := range items {
		if _, ok := it.(*docx.Paragraph); ok && t.Draw(uint64(den)) == 0 {
			sep[it] = true
		}
	}
	sd := save(t, src)
	pieces := src.SplitByParagraph(func(p *docx.Paragraph) bool { return sep[p] })
	sameParts(t, "source-changed", "the source after splitting it", sd, save(t, src))
	if len(pieces) > 1 {
		t.NonTrivial()
	}
	i := 0
	for k, d := range pieces {
		back := parse(t, save(t, d))
		if n := len(d.Document.Body.Items); n != len(back.Document.Body.Items) {
			t.Failf("items", "piece %d with %d items has %d when saved", k, n, len(back.Document.Body.Items))
		}
		for j, it := range d.Document.Body.Items {
			if i >= len(items) {
				t.Failf("items", "more items in the pieces than in the document")
			}
			if (j == 0) != (i == 0 || sep[items[i]]) {
				t.Failf("border", "item %d is item %d of piece %d, separator: %v", i, j, k, sep[items[i]])
			}
			sameStructures(t, "split", i, items[i], it, src, d)
			sameStructures(t, "split and saved", i, items[i], back.Document.Body.Items[j], src, back)
			i++
		}
	}
	if i != len(items) {
		t.Failf("items", "%d items in the document, %d in the pieces", len(items), i)
	}
}
