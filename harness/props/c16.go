package props

import (
	"fmt"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C16",
		Level: "exploration",
		Rule:  "filters with generated lists of kinds on generated documents with all kinds of drawings (inline, anchored, in links, in cells, incomplete); the saved result is compared with an independent filter of the saved original, elements in memory by identity; non-trivial: something is removed and something of the same level stays",
		Subs: []pbt.Sub{
			{Name: "drop", Quick: 3000, Weight: 3, Fn: c16drop},
			{Name: "memory", Quick: 15000, Fn: c16memory},
			{Name: "keep", Quick: 3000, Weight: 2, Fn: c16keep},
			wideSub("wide", 80, c16wide),
			{Name: "many", Quick: 300, Fn: c16many},
		},
	})
}

// what each name drops, by kind of drawing
var dropKinds = map[string]map[string]bool{
	"Canvas":                 {"wpc:wpc": true},
	"Shape":                  {"wps:wsp": true},
	"Group":                  {"wpg:wgp": true},
	"ShapeAndCanvas":         {"wps:wsp": true, "wpc:wpc": true},
	"ShapeAndCanvasAndGroup": {"wps:wsp": true, "wpc:wpc": true, "wpg:wgp": true},
	"NilPicture":             {"wps:wsp": true, "wpc:wpc": true, "wpg:wgp": true, "": true},
}

// dropName chooses a name, sometimes one that names nothing.
func dropName(t *pbt.T) string {
	if t.Chance(1, 8) {
		return pbt.Pick(t, "", "Picture", "canvas", "Shapes", "Drawing", "Nil", "ShapeAndGroup", " Shape", "Inline", "图片")
	}
	return pbt.Pick(t, "Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture")
}

// drawingKind of a canonical drawing.
func drawingKind(c *oox.C) string {
	for _, host := range c.Kids {
		if host.Name != "wp:inline" && host.Name != "wp:anchor" {
			continue
		}
		for _, g := range host.Kids {
			if g.Name != "a:graphic" {
				continue
			}
			for _, gd := range g.Kids {
				if gd.Name != "a:graphicData" {
					continue
				}
				for _, k := range gd.Kids {
					switch k.Name {
					case "pic:pic", "wps:wsp", "wpc:wpc", "wpg:wgp":
						return k.Name
					}
				}
			}
		}
	}
	return ""
}

// dropFrom a canonical paragraph.
func dropFrom(p *oox.C, kinds map[string]bool, cnt *[2]int) {
	for _, r := range p.Kids {
		switch r.Name {
		case "w:hyperlink":
			dropFrom(r, kinds, cnt)
		case "w:r":
			var kids []*oox.C
			for _, k := range r.Kids {
				if k.Name == "w:drawing" {
					if kinds[drawingKind(k)] {
						cnt[0]++
						continue
					}
					cnt[1]++
				}
				kids = append(kids, k)
			}
			r.Kids = kids
		}
	}
}

// dropBody drops from all paragraphs of a canonical body.
func dropBody(items []*oox.C, kinds map[string]bool, cnt *[2]int) {
	for _, c := range items {
		switch c.Name {
		case "w:p":
			dropFrom(c, kinds, cnt)
		case "w:tbl":
			for _, tr := range c.Kids {
				for _, tc := range tr.Kids {
					for _, k := range tc.Kids {
						if k.Name == "w:p" {
							dropFrom(k, kinds, cnt)
						}
					}
				}
			}
		}
	}
}

// drawDoc is a document with many drawings.
func drawDoc(t *pbt.T) *docx.Docx {
	if t.Chance(1, 5) {
		return someDoc(t)
	}
	g := docgen.New(t)
	body := docgen.El("w:body")
	for k := 0; k == 0 || t.More(k, 6, 2); k++ {
		if t.Chance(1, 4) {
			tb := g.Table()
			for _, tr := range tb.Kids {
				for _, tc := range tr.Kids {
					if tc.Local == "tc" && t.Bool() {
						tc.Kids = append(tc.Kids, mixedParagraph(t, g))
					}
				}
			}
			body.Kids = append(body.Kids, tb)
			continue
		}
		p := mixedParagraph(t, g)
		for j := t.Int(0, 4); j > 0; j-- {
			r := docgen.El("w:r")
			for n := t.Int(1, 3); n > 0; n-- {
				r.Kids = append(r.Kids, g.DrawingIn())
				if t.Chance(1, 3) {
					r.Kids = append(r.Kids, g.Text())
				}
			}
			if t.Chance(1, 4) && !g.NoLink {
				h := g.Hyperlink()
				h.Kids = h.Kids[:0]
				h.Kids = append(h.Kids, r)
				p.Kids = append(p.Kids, h)
				continue
			}
			p.Kids = append(p.Kids, r)
		}
		body.Kids = append(body.Kids, p)
	}
	in := g.Build(docgen.El("w:document", body), nil, false)
	return parse(t, in.Zip)
}

func drop(p *docx.Paragraph, name string) {
	switch name {
	case "Canvas":
		p.DropCanvas()
	case "Shape":
		p.DropShape()
	case "Group":
		p.DropGroup()
	case "ShapeAndCanvas":
		p.DropShapeAndCanvas()
	case "ShapeAndCanvasAndGroup":
		p.DropShapeAndCanvasAndGroup()
	case "NilPicture":
		p.DropNilPicture()
	}
}

func c16drop(t *pbt.T) {
	d := drawDoc(t)
	before := open(t, save(t, d))
	want := before.Body(oox.Opt{})
	var cnt [2]int
	for k := t.Int(1, 3); k > 0; k-- {
		name := dropName(t)
		if t.Chance(1, 3) { // only in some paragraphs
			t.Logf("drop %q in some paragraphs", name)
			for i, c := range want {
				if c.Name != "w:p" || t.Bool() {
					continue
				}
				p, ok := d.Document.Body.Items[i].(*docx.Paragraph)
				if !ok {
					t.Failf("items", "item %d is %T", i, d.Document.Body.Items[i])
				}
				dropFrom(c, dropKinds[name], &cnt)
				drop(p, name)
				st := dump(p)
				drop(p, name)
				sameStr(t, "idempotent", "dropping again", st, dump(p))
			}
			continue
		}
		t.Logf("DropDrawingOf(%q)", name)
		dropBody(want, dropKinds[name], &cnt)
		d.Document.Body.DropDrawingOf(name)
		if t.Bool() {
			st := dump(d.Document.Body)
			d.Document.Body.DropDrawingOf(name)
			sameStr(t, "idempotent", "dropping again", st, dump(d.Document.Body))
		}
	}
	if cnt[0] > 0 && cnt[1] > 0 {
		t.NonTrivial()
	}
	after := open(t, save(t, d))
	same(t, "dropped", "after dropping", norm(want, true), after.Body(oox.Opt{}))
	sameRels(t, before, after)
	samePartsBut(t, before, after)
}

// samePartsBut the main document.
func samePartsBut(t *pbt.T, a, b *oox.Pkg) {
	for _, n := range a.Names {
		if n != oox.DocPart && string(a.Parts[n]) != string(b.Parts[n]) {
			t.Failf("part-changed", "part %q changed", n)
		}
	}
	if len(a.Names) != len(b.Names) {
		t.Failf("part-changed", "there were %d parts, %d now", len(a.Names), len(b.Names))
	}
}

// memDrawing makes a drawing in memory, which may be incomplete, and says its kind.
func memDrawing(t *pbt.T) (*docx.Drawing, string) {
	var g *docx.AGraphic
	kind := ""
	switch t.Int(0, 6) {
	case 0:
		return &docx.Drawing{}, ""
	case 1:
	case 2:
		g = &docx.AGraphic{}
	default:
		g = &docx.AGraphic{GraphicData: &docx.AGraphicData{}}
		switch t.Int(0, 4) {
		case 0:
			g.GraphicData.Pic, kind = &docx.Picture{}, "pic:pic"
		case 1:
			g.GraphicData.Shape, kind = &docx.WordprocessingShape{}, "wps:wsp"
		case 2:
			g.GraphicData.Canvas, kind = &docx.WordprocessingCanvas{}, "wpc:wpc"
		case 3:
			g.GraphicData.Group, kind = &docx.WordprocessingGroup{}, "wpg:wgp"
		}
	}
	if t.Bool() {
		return &docx.Drawing{Inline: &docx.WPInline{Graphic: g}}, kind
	}
	return &docx.Drawing{Anchor: &docx.WPAnchor{Graphic: g}}, kind
}

func c16memory(t *pbt.T) {
	p := &docx.Paragraph{}
	kinds := map[*docx.Drawing]string{}
	type run struct {
		r    *docx.Run
		want []any
	}
	var runs []run
	for k := 0; k == 0 || t.More(k, 6, 2); k++ {
		r := &docx.Run{}
		for j := 0; t.More(j, 8, 3); j++ {
			switch t.Int(0, 4) {
			case 0:
				r.Children = append(r.Children, &docx.Text{Text: docgen.Word(t)})
			case 1:
				r.Children = append(r.Children, &docx.Tab{})
			default:
				d, kind := memDrawing(t)
				kinds[d] = kind
				r.Children = append(r.Children, d)
			}
		}
		switch t.Weighted(5, 1, 1) {
		case 0:
			p.Children = append(p.Children, r)
		case 1:
			h := &docx.Hyperlink{ID: "rId1", Run: *r}
			p.Children = append(p.Children, h)
			r = &h.Run
		default:
			p.Children = append(p.Children, r, &docx.RunProperties{})
		}
		runs = append(runs, run{r: r, want: append([]any(nil), r.Children...)})
	}
	body := docx.Body{}
	cell := t.Int(0, 2)
	switch cell {
	case 0:
		body.Items = []any{p}
	case 1:
		body.Items = []any{&docx.Table{TableRows: []*docx.WTableRow{{TableCells: []*docx.WTableCell{{Paragraphs: []*docx.Paragraph{{}, p}}}}}}, &docx.SectPr{}}
	default:
	}
	children := append([]any(nil), p.Children...)
	for n := t.Int(1, 3); n > 0; n-- {
		name := dropName(t)
		if cell == 2 {
			t.Logf("Drop%s", name)
			drop(p, name)
		} else {
			t.Logf("DropDrawingOf(%q)", name)
			body.DropDrawingOf(name)
		}
		for i := range runs {
			var want []any
			for _, c := range runs[i].want {
				if d, ok := c.(*docx.Drawing); ok && dropKinds[name][kinds[d]] {
					t.NonTrivial()
					continue
				}
				want = append(want, c)
			}
			runs[i].want = want
			sameList(t, "dropped", fmt.Sprintf("children of run %d after dropping %q", i, name), want, runs[i].r.Children)
		}
		sameList(t, "dropped", "children of the paragraph", children, p.Children)
	}
}

// sameList compares elements by identity.
func sameList(t *pbt.T, kind, what string, want, got []any) {
	if len(want) != len(got) {
		t.Failf(kind, "%s: %d elements, expected %d: %s", what, len(got), len(want), short(dump(got)))
	}
	for i := range want {
		if want[i] != got[i] {
			t.Failf(kind, "%s: element %d is not the expected one: %s", what, i, short(dump(got[i])))
		}
	}
}

var keepNames = map[string]string{
	"*docx.Paragraph": "w:p", "*docx.Table": "w:tbl", "*docx.SectPr": "w:sectPr",
	"*docx.Run": "w:r", "*docx.Hyperlink": "w:hyperlink",
	"*docx.Text": "w:t", "*docx.Drawing": "w:drawing", "*docx.Tab": "w:tab", "*docx.BarterRabbet": "w:br",
}

// names of a level, with others.
func someNames(t *pbt.T, level []string) []string {
	var out []string
	for _, n := range level {
		if t.Bool() {
			out = append(out, n)
		}
	}
	for t.Chance(1, 4) {
		out = append(out, pbt.Pick(t, "", "docx.Paragraph", "Paragraph", "*docx.", "*docx.RunProperties", "*docx.Run", "*docx.Text", "*docx.Table", "*docx.Hyperlink", "*docx.WTableRow", "w:p"))
	}
	for i := len(out) - 1; i > 0; i-- {
		j := t.Int(0, i)
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 0 && t.Chance(1, 6) {
		out = append(out, out[0])
	}
	return out
}

func filterAny(l []any, names []string) (out []any) {
	for _, x := range l {
		for _, n := range names {
			if fmt.Sprintf("%T", x) == n {
				out = append(out, x)
				break
			}
		}
	}
	return
}

// filterC a canonical list: what is no element of the kinds that can be kept stays.
func filterC(l []*oox.C, names, level []string) (out []*oox.C) {
	keep, known := map[string]bool{}, map[string]bool{}
	for _, n := range level {
		known[keepNames[n]] = true
	}
	for _, n := range names {
		keep[keepNames[n]] = true
	}
	for _, c := range l {
		if !known[c.Name] || keep[c.Name] {
			out = append(out, c)
		}
	}
	return
}

func c16keep(t *pbt.T) {
	d := drawDoc(t)
	before := open(t, save(t, d))
	want := before.Body(oox.Opt{})
	bodyLevel := []string{"*docx.Paragraph", "*docx.Table", "*docx.SectPr"}
	paraLevel := []string{"*docx.Run", "*docx.Hyperlink"}
	runLevel := []string{"*docx.Text", "*docx.Drawing", "*docx.Tab", "*docx.BarterRabbet"}
	if len(want) != len(d.Document.Body.Items) {
		t.Failf("items", "%d items saved, %d in memory", len(want), len(d.Document.Body.Items))
	}
	nontrivial := func(a, b int) {
		if b > 0 && b < a {
			t.NonTrivial()
		}
	}
	// runs and paragraphs first, the body then
	for i, it := range d.Document.Body.Items {
		p, ok := it.(*docx.Paragraph)
		if !ok {
			continue
		}
		c := want[i]
		if t.Chance(1, 3) {
			n := someNames(t, paraLevel)
			t.Logf("paragraph %d KeepElements%q", i, n)
			exp := filterAny(p.Children, n)
			nontrivial(len(p.Children), len(exp))
			p.KeepElements(n...)
			sameList(t, "kept", "children of a paragraph", exp, p.Children)
			p.KeepElements(n...)
			sameList(t, "idempotent", "children of a paragraph", exp, p.Children)
			c.Kids = filterC(c.Kids, n, paraLevel)
		}
		k := 0
		for _, x := range p.Children {
			for k < len(c.Kids) && c.Kids[k].Name != "w:r" && c.Kids[k].Name != "w:hyperlink" {
				k++
			}
			if k >= len(c.Kids) {
				t.Failf("items", "paragraph %d has more children than saved", i)
			}
			rc := c.Kids[k]
			k++
			var r *docx.Run
			switch y := x.(type) {
			case *docx.Run:
				r = y
			case *docx.Hyperlink:
				r = &y.Run
				if len(rc.Kids) != 1 {
					t.Failf("items", "a link is saved with %d runs", len(rc.Kids))
				}
				rc = rc.Kids[0]
			default:
				t.Failf("items", "a paragraph holds %T", x)
			}
			if t.Chance(2, 3) {
				continue
			}
			n := someNames(t, runLevel)
			t.Logf("run %d of paragraph %d KeepElements%q", k, i, n)
			exp := filterAny(r.Children, n)
			nontrivial(len(r.Children), len(exp))
			r.KeepElements(n...)
			sameList(t, "kept", "children of a run", exp, r.Children)
			rc.Kids = filterC(rc.Kids, n, runLevel)
		}
	}
	if t.Bool() {
		n := someNames(t, bodyLevel)
		t.Logf("body KeepElements%q", n)
		exp := filterAny(d.Document.Body.Items, n)
		nontrivial(len(d.Document.Body.Items), len(exp))
		d.Document.Body.KeepElements(n...)
		sameList(t, "kept", "items of the body", exp, d.Document.Body.Items)
		d.Document.Body.KeepElements(n...)
		sameList(t, "idempotent", "items of the body", exp, d.Document.Body.Items)
		want = filterC(want, n, bodyLevel)
	}
	after := open(t, save(t, d))
	same(t, "kept", "after filtering", norm(want, true), after.Body(oox.Opt{}))
	sameRels(t, before, after)
	samePartsBut(t, before, after)
}

// c16many filters long lists of elements in memory.
func c16many(t *pbt.T) {
	n := pbt.Pick(t, 17, 40, 65, 130, 260, 520, 1030, 4100) + t.Int(0, 9)
	// a pattern of kinds, repeated, so that few choices make a long list
	pat := make([]int, t.Int(2, 12))
	for i := range pat {
		pat[i] = t.Int(0, 3)
	}
	at := func(i int) int { return pat[i*7/3%len(pat)] }
	drops := map[any]string{}
	mk := func(level, i int) any {
		switch level {
		case 0:
			switch at(i) {
			case 0:
				return &docx.Table{}
			case 1:
				return &docx.SectPr{}
			}
			return &docx.Paragraph{}
		case 1:
			switch at(i) {
			case 0:
				return &docx.Hyperlink{ID: "rId1"}
			case 1:
				return &docx.RunProperties{}
			}
			return &docx.Run{}
		}
		switch at(i) {
		case 0:
			return &docx.Text{Text: "a"}
		case 1:
			return &docx.Tab{}
		}
		d, kind := memDrawingAt(i)
		drops[d] = kind
		return d
	}
	level := t.Int(0, 2)
	list := make([]any, n)
	for i := range list {
		list[i] = mk(level, i)
	}
	given := append([]any(nil), list...)
	t.Logf("%d elements of level %d", n, level)
	if level == 2 && t.Bool() {
		name := dropName(t)
		r := &docx.Run{Children: list}
		p := &docx.Paragraph{Children: []any{r}}
		var want []any
		for _, x := range given {
			if _, ok := x.(*docx.Drawing); ok && dropKinds[name][drops[x]] {
				t.NonTrivial()
				continue
			}
			want = append(want, x)
		}
		t.Logf("drop %q", name)
		if t.Bool() {
			drop(p, name)
		} else {
			b := docx.Body{Items: []any{p}}
			b.DropDrawingOf(name)
		}
		sameList(t, "dropped", "children of the run", want, r.Children)
		return
	}
	names := someNames(t, [][]string{
		{"*docx.Paragraph", "*docx.Table", "*docx.SectPr"},
		{"*docx.Run", "*docx.Hyperlink", "*docx.RunProperties"},
		{"*docx.Text", "*docx.Drawing", "*docx.Tab"},
	}[level])
	want := filterAny(given, names)
	t.Logf("KeepElements%q", names)
	if len(want) > 0 && len(want) < n {
		t.NonTrivial()
	}
	switch level {
	case 0:
		b := docx.Body{Items: list}
		b.KeepElements(names...)
		sameList(t, "kept", "items of the body", want, b.Items)
	case 1:
		p := docx.Paragraph{Children: list}
		p.KeepElements(names...)
		sameList(t, "kept", "children of the paragraph", want, p.Children)
	default:
		r := docx.Run{Children: list}
		r.KeepElements(names...)
		sameList(t, "kept", "children of the run", want, r.Children)
	}
}

// memDrawingAt is the drawing of a kind chosen by a number.
func memDrawingAt(i int) (*docx.Drawing, string) {
	gd := &docx.AGraphicData{}
	kind := ""
	switch i % 5 {
	case 0:
		gd.Pic, kind = &docx.Picture{}, "pic:pic"
	case 1:
		gd.Shape, kind = &docx.WordprocessingShape{}, "wps:wsp"
	case 2:
		gd.Canvas, kind = &docx.WordprocessingCanvas{}, "wpc:wpc"
	case 3:
		gd.Group, kind = &docx.WordprocessingGroup{}, "wpg:wgp"
	}
	g := &docx.AGraphic{GraphicData: gd}
	if i%2 == 0 {
		return &docx.Drawing{Inline: &docx.WPInline{Graphic: g}}, kind
	}
	return &docx.Drawing{Anchor: &docx.WPAnchor{Graphic: g}}, kind
}
