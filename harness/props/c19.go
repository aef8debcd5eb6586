package props

import (
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C19",
		Level: "exploration",
		Rule:  "pictures of all formats with sides from 1 to 65535 pixels and shapes with any size, name, preset and line, placed inline and anchored in new and reopened documents, resized at any time; geometry, names and identifiers are checked in memory and in the saved file; non-trivial: at least two drawings are placed",
		Subs: []pbt.Sub{
			{Name: "place", Quick: 3000, Weight: 2, Fn: c19place},
			{Name: "resize", Quick: 1500, Weight: 2, Fn: c19resize},
			{Name: "counter", Quick: 4000, Fn: c19counter},
		},
	})
}

const a4width = 5274310 // EMU between the default margins of A4

// ratio: cx:cy is w:h up to the rounding of either side.
func ratio(cx, cy int64, w, h int) bool {
	ok := func(a, b int64, c, d int) bool { // |a - b*c/d| <= 2
		x := new(big.Rat).SetFrac(new(big.Int).Mul(big.NewInt(b), big.NewInt(int64(c))), big.NewInt(int64(d)))
		x.Sub(x, new(big.Rat).SetInt64(a))
		return x.Abs(x).Cmp(big.NewRat(2, 1)) <= 0
	}
	return ok(cx, cy, w, h) || ok(cy, cx, h, w)
}

// parts of the drawing a run holds.
func drawingOf(t *pbt.T, r *docx.Run, anchor bool) (size func(w, h int64), ex *docx.WPExtent, pr *docx.WPDocPr, g *docx.AGraphic) {
	for _, k := range r.Children {
		if d, ok := k.(*docx.Drawing); ok {
			if anchor != (d.Anchor != nil) || anchor == (d.Inline != nil) {
				t.Failf("mode", "the drawing is not placed as asked for")
			}
			if anchor {
				return d.Anchor.Size, d.Anchor.Extent, d.Anchor.DocPr, d.Anchor.Graphic
			}
			return d.Inline.Size, d.Inline.Extent, d.Inline.DocPr, d.Inline.Graphic
		}
	}
	t.Failf("mode", "the run holds no drawing")
	return
}

func c19place(t *pbt.T) {
	b := newB(t)
	if t.Chance(1, 3) { // go on with a parsed document
		in := foreign(t, nil, false, nil)
		d := parse(t, in.Zip)
		b = wrapB(t, d, open(t, save(t, d)).Body(oox.Opt{Brief: true, NoNames: true}))
	}
	seen := map[int]bool{} // identifiers in use
	for _, x := range docPrIDs(open(t, save(t, b.d))) {
		if n, err := strconv.Atoi(x); err == nil {
			seen[n] = true
		}
	}
	next := map[string]int{} // numbers per name
	know := func(n string) { // the number before
		if _, ok := next[n]; !ok {
			if b.names {
				next[n] = 0
			} else {
				next[n] = int(b.d.IncreaseID(n))
			}
		}
	}
	name := func(n string) string {
		next[n]++
		return n + " " + strconv.Itoa(next[n])
	}
	placed := 0
	for k := t.Int(1, 3+t.Size/12); k > 0; k-- {
		p := b.addPara()
		anchor := t.Bool()
		var full string
		var ext docx.AExt
		var r *docx.Run
		var cx, cy int64
		c := oox.E("drawing", "mode", "inline")
		if anchor {
			c = oox.E("drawing", "mode", "anchor", "wrap", "none")
		}
		pic := t.Bool()
		if pic {
			data, format, w, h := docgen.ImageInfo(t)
			know("图片")
			b.logf("picture anchor=%v %s %dx%d", anchor, format, w, h)
			var err error
			if t.Chance(1, 6) {
				f := filepath.Join(Scratch, "c19-"+strconv.FormatUint(t.Draw(1<<62), 36)+"."+format)
				if e := os.WriteFile(f, data, 0o644); e != nil {
					t.Discard()
				}
				if anchor {
					r, err = p.p.AddAnchorDrawingFrom(f)
				} else {
					r, err = p.p.AddInlineDrawingFrom(f)
				}
				os.Remove(f)
			} else if anchor {
				r, err = p.p.AddAnchorDrawing(data)
			} else {
				r, err = p.p.AddInlineDrawing(data)
			}
			if err != nil {
				t.Failf("refused", "a %s picture of %dx%d is refused: %v", format, w, h, err)
			}
			_, ex, _, g := drawingOf(t, r, anchor)
			if ex == nil || g == nil || g.GraphicData == nil || g.GraphicData.Pic == nil || g.GraphicData.Pic.SpPr == nil {
				t.Failf("geometry", "the picture has no geometry")
			}
			cx, cy, ext = ex.CX, ex.CY, g.GraphicData.Pic.SpPr.Xfrm.Ext
			if cx <= 0 || cy <= 0 || cx > a4width {
				t.Failf("geometry", "a %s picture of %dx%d gets the size %dx%d", format, w, h, cx, cy)
			}
			if !ratio(cx, cy, w, h) {
				t.Failf("ratio", "a %s picture of %dx%d gets the size %dx%d", format, w, h, cx, cy)
			}
			full = name("图片")
			c.At["kind"], c.At["prst"], c.At["media"] = "pic", "rect", oox.Sum(data)
		} else {
			cx, cy = docgen.AnyEmu(t), docgen.AnyEmu(t)
			nm := pbt.Pick(t, "矩形", "图片", "line", "", "a 1", docgen.Line(t, 3))
			bw := pbt.Pick(t, "", "auto", "white")
			prst := pbt.Pick(t, "rect", "line", "ellipse", "")
			ln, lc := lineOf(t)
			know(nm)
			b.logf("shape anchor=%v %dx%d %q %q %q line=%v", anchor, cx, cy, nm, bw, prst, ln != nil)
			if anchor {
				r = p.p.AddAnchorShape(cx, cy, nm, bw, prst, ln)
			} else {
				r = p.p.AddInlineShape(cx, cy, nm, bw, prst, ln)
			}
			_, ex, _, g := drawingOf(t, r, anchor)
			if ex == nil || g == nil || g.GraphicData == nil || g.GraphicData.Shape == nil || g.GraphicData.Shape.SpPr == nil {
				t.Failf("geometry", "the shape has no geometry")
			}
			if ex.CX != cx || ex.CY != cy {
				t.Failf("geometry", "a shape of %dx%d gets the size %dx%d", cx, cy, ex.CX, ex.CY)
			}
			sp := g.GraphicData.Shape.SpPr
			ext = sp.Xfrm.Ext
			if sp.PrstGeom.Prst != prst || sp.BWMode != bw {
				t.Failf("shape", "a shape %q %q gets %q %q", prst, bw, sp.PrstGeom.Prst, sp.BWMode)
			}
			full = name(nm)
			c.At["kind"], c.At["prst"] = "shape", prst
			if bw != "" {
				c.At["bwMode"] = bw
			}
			if lc != nil {
				c.Add(lc)
			}
		}
		size, ex, pr, _ := drawingOf(t, r, anchor)
		if ext.CX != cx || ext.CY != cy {
			t.Failf("geometry", "the size is %dx%d, but the shape properties have %dx%d", cx, cy, ext.CX, ext.CY)
		}
		if pr == nil || pr.ID <= 0 || seen[pr.ID] {
			t.Failf("identity", "the new drawing has the identifier %+v, which is not a new one", pr)
		}
		seen[pr.ID] = true
		if pr.Name != full {
			t.Failf("name", "the new drawing is named %q, expected %q", pr.Name, full)
		}
		if t.Chance(1, 3) {
			nx, ny := docgen.AnyEmu(t), docgen.AnyEmu(t)
			switch t.Weighted(4, 1, 1, 1) {
			case 1:
				nx = cx
			case 2:
				ny = cy
			case 3:
				nx, ny = cx, cx
			}
			cx, cy = nx, ny
			b.logf(" Size(%d, %d)", cx, cy)
			size(cx, cy)
			if ex.CX != cx || ex.CY != cy {
				t.Failf("geometry", "after Size(%d, %d) the size is %dx%d", cx, cy, ex.CX, ex.CY)
			}
		}
		if b.names {
			c.At["name"] = full
		}
		c.At["extent"], c.At["ext"] = dims(cx, cy), dims(cx, cy)
		p.c.Add(oox.E("w:r").Add(oox.E("w:rPr"), c))
		placed++
		if t.Chance(1, 6) { // the counter is also used otherwise
			n := pbt.Pick(t, "图片", "矩形", "line", "other")
			know(n)
			want := name(n)
			if got := n + " " + strconv.Itoa(int(b.d.IncreaseID(n))); got != want {
				t.Failf("counter", "IncreaseID gives %q, expected %q", got, want)
			}
		}
		if t.Chance(1, 6) {
			b.reopen("drawings")
			for _, x := range docPrIDs(open(t, save(t, b.d))) {
				if n, err := strconv.Atoi(x); err == nil {
					seen[n] = true
				}
			}
			next = map[string]int{}
		}
	}
	if placed >= 2 {
		t.NonTrivial()
	}
	_, pkg := b.save("drawings")
	n := len(docPrIDs(pkg))
	uniq := map[string]bool{}
	for _, x := range docPrIDs(pkg) {
		uniq[x] = true
	}
	if b.names && len(uniq) != n { // parsed documents may have had equal ones
		t.Failf("identity", "%d drawings have only %d identifiers", n, len(uniq))
	}
}

// child finds or makes a chain of children.
func child(c *oox.C, names ...string) *oox.C {
	for _, n := range names {
		var next *oox.C
		for _, k := range c.Kids {
			if k.Name == n {
				next = k
			}
		}
		if next == nil {
			return nil
		}
		c = next
	}
	return c
}

// bodyDrawings in document order: those of runs and links of paragraphs in body and cells.
func bodyDrawings(d *docx.Docx) (out []*docx.Drawing) {
	run := func(r *docx.Run) {
		for _, k := range r.Children {
			if x, ok := k.(*docx.Drawing); ok {
				out = append(out, x)
			}
		}
	}
	for _, p := range paragraphs(d) {
		for _, k := range p.Children {
			switch x := k.(type) {
			case *docx.Run:
				run(x)
			case *docx.Hyperlink:
				run(&x.Run)
			}
		}
	}
	return
}

// canonDrawings are their canonical forms.
func canonDrawings(l []*oox.C) (out []*oox.C) {
	for _, c := range l {
		switch c.Name {
		case "w:drawing":
			out = append(out, c)
		default:
			out = append(out, canonDrawings(c.Kids)...)
		}
	}
	return
}

func c19resize(t *pbt.T) {
	d := drawDoc(t)
	if t.Chance(1, 3) {
		for i, x := range bodyDrawings(d) {
			if t.Bool() {
				t.Logf("drawing %d without its %s", i, incomplete(t, x))
			}
		}
	}
	want := open(t, save(t, d)).Body(oox.Opt{})
	ds, cs := bodyDrawings(d), canonDrawings(want)
	if len(ds) != len(cs) {
		t.Failf("drawings", "the document holds %d drawings, the saved one %d", len(ds), len(cs))
	}
	if len(ds) == 0 {
		return
	}
	for k := t.Int(1, 3); k > 0; k-- {
		i := t.Int(0, len(ds)-1)
		x, c := ds[i], cs[i]
		w, h := max(1, docgen.AnyEmu(t)), max(1, docgen.AnyEmu(t)) // an extension of zero by zero needs no transform
		if e := extentOf(x); e != nil {                            // partly the size it has
			switch t.Weighted(6, 1, 1, 1, 1, 1) {
			case 1:
				w = max(1, e.CX)
			case 2:
				h = max(1, e.CY)
			case 3:
				w, h = max(1, e.CY), max(1, e.CX)
			case 4:
				w, h = max(1, e.CX), max(1, e.CX)
			case 5:
				w, h = max(1, e.CY), max(1, e.CY)
			}
		}
		t.Logf("drawing %d: Size(%d, %d)", i, w, h)
		var host *oox.C
		var g *docx.AGraphic
		var ex *docx.WPExtent
		switch {
		case x.Inline != nil:
			x.Inline.Size(w, h)
			host, g, ex = child(c, "wp:inline"), x.Inline.Graphic, x.Inline.Extent
		case x.Anchor != nil:
			x.Anchor.Size(w, h)
			host, g, ex = child(c, "wp:anchor"), x.Anchor.Graphic, x.Anchor.Extent
		default:
			continue
		}
		if len(ds) > 1 {
			t.NonTrivial()
		}
		put := func(e *oox.C) {
			if e == nil {
				t.Failf("geometry", "no place for the size in drawing %d", i)
			}
			e.At["cx"], e.At["cy"] = strconv.FormatInt(w, 10), strconv.FormatInt(h, 10)
		}
		if ex != nil {
			put(child(host, "wp:extent"))
		}
		for _, chain := range [][]string{{"pic:pic", "pic:spPr"}, {"wps:wsp", "wps:spPr"}} {
			sp := child(host, append([]string{"a:graphic", "a:graphicData"}, chain...)...)
			if sp == nil || g == nil {
				continue
			}
			xf := child(sp, "a:xfrm")
			if xf == nil {
				xf = oox.E("a:xfrm").Add(oox.E("a:off", "x", "0", "y", "0"), oox.E("a:ext"))
				sp.Add(xf)
			}
			put(child(xf, "a:ext"))
		}
	}
	var out []*oox.C
	for _, c := range want {
		out = append(out, c.Norm())
	}
	same(t, "resize", "document after resizing", out, open(t, save(t, d)).Body(oox.Opt{}))
}

func c19counter(t *pbt.T) {
	d := docx.New()
	names := []string{"图片", "a", "A", "", " ", "图片 1", strings.Repeat("x", t.Int(1, 50)), docgen.Line(t, 4)}
	cnt := map[string]uintptr{}
	for k := t.Int(1, 5+t.Size); k > 0; k-- {
		n := pbt.Pick(t, names...)
		cnt[n]++
		t.Logf("IncreaseID(%q)", n)
		if g := d.IncreaseID(n); g != cnt[n] {
			t.Failf("counter", "IncreaseID(%q) gives %d, expected %d", n, g, cnt[n])
		}
	}
	if t.Chance(1, 20) { // very often
		n := pbt.Pick(t, names...)
		for k := pbt.Pick(t, 300, 5000, 70000); k > 0; k-- {
			cnt[n]++
			if g := d.IncreaseID(n); g != cnt[n] {
				t.Failf("counter", "IncreaseID(%q) gives %d, expected %d", n, g, cnt[n])
			}
		}
	}
	if len(cnt) >= 2 {
		t.NonTrivial()
	}
}

func extentOf(x *docx.Drawing) *docx.WPExtent {
	switch {
	case x.Inline != nil:
		return x.Inline.Extent
	case x.Anchor != nil:
		return x.Anchor.Extent
	}
	return nil
}

// incomplete takes a part from a drawing.
func incomplete(t *pbt.T, x *docx.Drawing) string {
	var g **docx.AGraphic
	var ex **docx.WPExtent
	switch {
	case x.Inline != nil:
		g, ex = &x.Inline.Graphic, &x.Inline.Extent
	case x.Anchor != nil:
		g, ex = &x.Anchor.Graphic, &x.Anchor.Extent
	default:
		return "nothing"
	}
	var data *docx.AGraphicData
	if *g != nil {
		data = (*g).GraphicData
	}
	switch t.Weighted(1, 1, 1, 4) {
	case 0:
		*ex = nil
		return "extent"
	case 1:
		*g = nil
		return "graphic"
	case 2:
		if *g != nil {
			(*g).GraphicData = nil
		}
		return "graphic data"
	}
	if data == nil {
		return "nothing"
	}
	if data.Pic != nil {
		data.Pic.SpPr = nil
	}
	if data.Shape != nil {
		data.Shape.SpPr = nil
	}
	return "properties"
}
