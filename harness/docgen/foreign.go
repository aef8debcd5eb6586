// Package docgen generates documents the library has not written itself:
// main documents over the supported vocabulary, packages around them, pictures.
package docgen

import (
	"fmt"
	"strconv"
	"strings"

	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// G is the state of one generated package.
type G struct {
	T       *pbt.T
	Rels    []oox.Rel
	Media   []MediaPart // word/media/…
	Outside []Part      // pictures elsewhere
	Feat    map[string]bool
	docPr   int
	ridUsed map[string]bool
	ridMode int
	nextRid int
	// knobs
	NoDrawing, NoLink, NoTable bool
	NoOutside                  bool // all pictures are in word/media
	PlainText                  bool // only text that is equal after whitespace handling
	SimpleIDs                  bool
	depth                      int
	budget                     int
}

// MediaPart is a picture part.
type MediaPart struct {
	Name string // below word/media/
	Data []byte
}

// New generator state.
func New(t *pbt.T) *G {
	g := &G{T: t, Feat: map[string]bool{}, ridUsed: map[string]bool{}, nextRid: 1}
	g.ridMode = t.Weighted(5, 2, 1, 1)
	g.budget = 20 + t.Size*6
	return g
}

func (g *G) feat(s string) { g.Feat[s] = true }

// El builds an element. Attributes come as pairs "prefix:name", value; "" values are kept.
func El(name string, args ...any) *xt.Node {
	n := &xt.Node{}
	n.NS, n.Local = split(name)
	for i := 0; i < len(args); i++ {
		switch x := args[i].(type) {
		case string:
			ns, l := split(x)
			if !strings.Contains(x, ":") {
				ns = ""
			}
			n.Attrs = append(n.Attrs, xt.Attr{NS: ns, Local: l, Val: args[i+1].(string)})
			i++
		case *xt.Node:
			if x != nil {
				n.Kids = append(n.Kids, x)
			}
		case []*xt.Node:
			n.Kids = append(n.Kids, x...)
		case nil:
		default:
			panic(fmt.Sprintf("%T", x))
		}
	}
	return n
}

var nsOf = map[string]string{"w": oox.W, "r": oox.R, "wp": oox.WP, "a": oox.A, "pic": oox.PIC, "wps": oox.WPS, "wpc": oox.WPC, "wpg": oox.WPG, "mc": oox.MC, "xml": xt.XMLNS}

func split(name string) (ns, local string) {
	i := strings.IndexByte(name, ':')
	if i < 0 {
		return "", name
	}
	return nsOf[name[:i]], name[i+1:]
}

func (g *G) attr(n *xt.Node, name, val string) {
	ns, l := split(name)
	n.Attrs = append(n.Attrs, xt.Attr{NS: ns, Local: l, Val: val})
}

func (g *G) maybe(n *xt.Node, name string, val func() string) {
	if g.T.Bool() {
		g.attr(n, name, val())
	}
}

// Rid makes an unused relationship identifier.
func (g *G) Rid() string {
	for {
		var n uint64
		switch g.ridMode {
		case 0, 1:
			n = uint64(g.nextRid)
			g.nextRid++
			if g.ridMode == 1 && g.T.Bool() {
				g.nextRid += g.T.Int(0, 50)
			}
		case 2:
			n = uint64(g.T.Int(1, 5000))
		default:
			n = g.T.Draw(1 << 40)
		}
		id := "rId" + strconv.FormatUint(n, 10)
		if !g.ridUsed[id] {
			g.ridUsed[id] = true
			return id
		}
		g.nextRid++
		if g.ridMode > 1 {
			g.ridMode = 0
		}
	}
}

// Link registers a hyperlink relationship, sometimes reusing one.
func (g *G) Link() string {
	if g.T.Chance(1, 4) {
		var have []string
		for _, r := range g.Rels {
			if r.Type == oox.RLnk {
				have = append(have, r.ID)
			}
		}
		if len(have) > 0 {
			return have[g.T.Int(0, len(have)-1)]
		}
	}
	r := oox.Rel{ID: g.Rid(), Type: oox.RLnk, Target: URL(g.T), Mode: "External"}
	g.Rels = append(g.Rels, r)
	return r.ID
}

// Picture registers a picture part and its relationship.
func (g *G) Picture() string {
	if g.T.Chance(1, 4) {
		var have []string
		for _, r := range g.Rels {
			if r.Type == oox.RImg {
				have = append(have, r.ID)
			}
		}
		if len(have) > 0 {
			return have[g.T.Int(0, len(have)-1)]
		}
	}
	if !g.NoOutside && g.T.Chance(1, 10) { // some programs put pictures elsewhere
		e := pbt.Pick(g.T, "png", "jpeg", "gif")
		p := Part{pbt.Pick(g.T, "media/image", "pictures/a b/p", "word/embeddings/x.", "word/media2/") + itoa(len(g.Outside)+1) + "." + e, Image(g.T)}
		tgt := "/" + p.Name
		if g.T.Bool() {
			tgt = "../" + p.Name
		}
		g.Outside = append(g.Outside, p)
		r := oox.Rel{ID: g.Rid(), Type: oox.RImg, Target: tgt}
		g.Rels = append(g.Rels, r)
		g.feat("outside")
		return r.ID
	}
	m := g.NewMedia()
	tgt := "media/" + m.Name
	switch g.T.Weighted(6, 1, 1) {
	case 1:
		tgt = "/word/media/" + m.Name
		g.feat("abs-target")
	case 2:
		tgt = "./media/" + m.Name
		g.feat("dot-target")
	}
	r := oox.Rel{ID: g.Rid(), Type: oox.RImg, Target: tgt}
	g.Rels = append(g.Rels, r)
	return r.ID
}

// NewMedia adds a media part with a new name.
func (g *G) NewMedia() MediaPart {
	t := g.T
	data := Image(t)
	ext := t.Weighted(8, 2, 2, 2, 1, 1, 1, 1)
	e := []string{"png", "jpeg", "emf", "PNG", "jpg", "wmf", "xyz", "Jpg"}[ext]
	var name string
	for i := 0; ; i++ {
		switch t.Weighted(6, 3, 2, 2, 1, 1) {
		case 0:
			name = fmt.Sprintf("image%d.%s", len(g.Media)+1+i, e)
		case 1:
			name = fmt.Sprintf("image%d.%s", 100001+t.Int(0, 4)+i, t0(e))
		case 2:
			name = fmt.Sprintf("%s%d.%s", Word(t), i, e)
		case 3:
			name = fmt.Sprintf("sub/pic%d.%s", len(g.Media)+i, e)
		case 4:
			name = fmt.Sprintf("pic.v%d.1.%s", len(g.Media)+i, e)
		default:
			name = fmt.Sprintf("%spic%d", pbt.Pick(t, "", "", "v1.2/"), len(g.Media)+i) // no extension: its type is an override
			g.feat("no-extension")
		}
		dup := false
		for _, m := range g.Media {
			dup = dup || strings.EqualFold(m.Name, name)
		}
		if !dup {
			break
		}
	}
	m := MediaPart{Name: name, Data: data}
	g.Media = append(g.Media, m)
	return m
}

func t0(e string) string {
	return strings.ToLower(e)
}

func itoa(n int) string { return strconv.Itoa(n) }

func (g *G) num(lo, hi int) func() string {
	return func() string { return itoa(g.Num(lo, hi)) }
}

// Num is a number of [lo,hi], favouring the ends and small numbers.
func (g *G) Num(lo, hi int) int {
	switch g.T.Weighted(5, 3, 1, 1) {
	case 0:
		return g.T.Int(lo, min(hi, lo+20))
	case 1:
		return g.T.Int(lo, hi)
	case 2:
		return hi
	default:
		return lo
	}
}

// nonzero number of [lo,hi] with lo<0<hi or lo>0
func (g *G) nz(lo, hi int) func() string {
	return func() string {
		n := g.Num(lo, hi)
		if n == 0 {
			n = 1
		}
		return itoa(n)
	}
}

func (g *G) str(v ...string) func() string {
	return func() string {
		if g.T.Chance(1, 12) {
			return AttrString(g.T)
		}
		return pbt.Pick(g.T, v...)
	}
}

func (g *G) onoff() string {
	return pbt.Pick(g.T, "1", "0", "true", "false", "on", "off")
}

// 0/1 flag
func (g *G) flag() string { return pbt.Pick(g.T, "0", "1", "true", "false") }

func (g *G) val(name string, f func() string) *xt.Node { return El(name, "w:val", f()) }

func (g *G) color() string {
	return pbt.Pick(g.T, "auto", "000000", "FF0000", "00ff00", fmt.Sprintf("%06X", g.T.Draw(1<<24)))
}

func (g *G) shd() *xt.Node {
	n := El("w:shd", "w:val", g.str("clear", "pct10", "solid", "nil")())
	g.maybe(n, "w:color", g.color)
	g.maybe(n, "w:fill", g.color)
	g.maybe(n, "w:themeFill", g.str("accent1", "background2"))
	g.maybe(n, "w:themeFillTint", g.str("33", "66"))
	return n
}

func (g *G) toggle(name string) *xt.Node {
	n := El(name)
	g.maybe(n, "w:val", g.onoff)
	return n
}

// RPr makes run properties (never empty).
func (g *G) RPr() *xt.Node {
	t := g.T
	n := El("w:rPr")
	type ent func() *xt.Node
	all := []ent{
		func() *xt.Node { return g.toggle("w:b") },
		func() *xt.Node { return g.toggle("w:i") },
		func() *xt.Node {
			f := El("w:rFonts")
			g.maybe(f, "w:ascii", g.str("Times New Roman", "宋体", "Arial"))
			g.maybe(f, "w:eastAsia", g.str("宋体", "MS Mincho"))
			g.maybe(f, "w:hAnsi", g.str("Calibri", "Arial"))
			g.maybe(f, "w:hint", g.str("eastAsia", "default"))
			return f
		},
		func() *xt.Node { return El("w:iCs") },
		func() *xt.Node { return g.val("w:u", g.str("single", "double", "wave", "none")) },
		func() *xt.Node { return g.val("w:highlight", g.str("yellow", "red", "none")) },
		func() *xt.Node { return g.val("w:color", g.color) },
		func() *xt.Node { return g.val("w:sz", g.str("24", "21", "1", "3276")) },
		func() *xt.Node { return g.val("w:szCs", g.str("24", "22")) },
		func() *xt.Node { return g.val("w:rStyle", g.str("a3", "Strong", "3")) },
		g.shd,
		func() *xt.Node { return g.val("w:kern", g.num(0, 100)) },
		func() *xt.Node { return g.val("w:vertAlign", g.str("superscript", "subscript", "baseline")) },
		func() *xt.Node { return g.toggle("w:strike") },
		func() *xt.Node { return g.val("w:spacing", g.nz(-400, 400)) },
	}
	g.some(n, len(all), func(i int) *xt.Node { return all[i]() })
	g.feat("rPr")
	_ = t
	return n
}

// some adds a non-empty subset of alternatives in random order.
func (g *G) some(n *xt.Node, cnt int, f func(int) *xt.Node) {
	t := g.T
	used := map[int]bool{}
	for k := 0; k == 0 || t.More(k, cnt, 2); k++ {
		i := t.Int(0, cnt-1)
		if used[i] {
			continue
		}
		used[i] = true
		n.Kids = append(n.Kids, f(i))
	}
}

// PPr makes paragraph properties (never empty).
func (g *G) PPr() *xt.Node {
	t := g.T
	n := El("w:pPr")
	type ent func() *xt.Node
	all := []ent{
		func() *xt.Node { return g.val("w:pStyle", g.str("1", "Heading1", "a5", "标题")) },
		func() *xt.Node {
			tb := El("w:tabs")
			for k := 0; k == 0 || t.More(k, 5, 1); k++ {
				x := El("w:tab")
				if !t.Chance(1, 6) {
					g.attr(x, "w:val", g.str("left", "center", "right", "clear")())
				}
				g.attr(x, "w:pos", itoa(g.Num(1, 20000)))
				tb.Kids = append(tb.Kids, x)
			}
			return tb
		},
		func() *xt.Node {
			s := El("w:spacing")
			g.maybe(s, "w:beforeLines", g.nz(1, 1000))
			g.maybe(s, "w:before", g.nz(1, 10000))
			g.maybe(s, "w:line", g.nz(-1000, 10000))
			g.maybe(s, "w:lineRule", g.str("auto", "exact", "atLeast"))
			return s
		},
		func() *xt.Node {
			np := El("w:numPr")
			if t.Chance(3, 4) {
				np.Kids = append(np.Kids, g.val("w:ilvl", g.num(0, 8)))
			}
			if t.Chance(3, 4) {
				np.Kids = append(np.Kids, g.val("w:numId", g.num(0, 100)))
			}
			return np
		},
		func() *xt.Node {
			s := El("w:ind")
			for _, a := range []string{"w:leftChars", "w:left", "w:firstLineChars", "w:firstLine", "w:hangingChars", "w:hanging"} {
				g.maybe(s, a, g.nz(-3000, 30000))
			}
			return s
		},
		func() *xt.Node { return g.val("w:jc", g.str("center", "both", "right", "left", "distribute")) },
		g.shd,
		func() *xt.Node { return g.val("w:kern", g.num(0, 100)) },
		func() *xt.Node { return g.val("w:textAlignment", g.str("baseline", "center", "auto")) },
		func() *xt.Node { return g.toggle("w:adjustRightInd") },
		func() *xt.Node { return g.toggle("w:snapToGrid") },
		func() *xt.Node { return g.toggle("w:kinsoku") },
		func() *xt.Node { return g.toggle("w:overflowPunct") },
		g.RPr,
	}
	g.some(n, len(all), func(i int) *xt.Node { return all[i]() })
	g.feat("pPr")
	return n
}

func textEl(name, s string, preserve bool) *xt.Node {
	n := El(name)
	if preserve {
		n.Attrs = append(n.Attrs, xt.Attr{NS: xt.XMLNS, Local: "space", Val: "preserve"})
	}
	if s != "" {
		n.Kids = []*xt.Node{{Text: s}}
	}
	return n
}

// Text element.
func (g *G) Text() *xt.Node {
	s := String(g.T, 12)
	pres := strings.TrimSpace(s) != s
	if pres && g.T.Chance(1, 4) {
		pres = false // blanks which a strict reader drops
	} else if !pres && g.T.Chance(1, 6) {
		pres = true
	}
	if g.PlainText && strings.TrimSpace(s) != s {
		pres = true
	}
	return textEl("w:t", s, pres)
}

// Run makes a run; inLink runs have no field instruction.
func (g *G) Run(inLink bool) *xt.Node {
	t := g.T
	n := El("w:r")
	if t.Chance(1, 2) {
		n.Kids = append(n.Kids, g.RPr())
	}
	if !inLink && t.Chance(1, 12) || inLink && t.Chance(1, 6) {
		s := String(t, 8)
		n.Kids = append(n.Kids, textEl("w:instrText", s, strings.TrimSpace(s) != s))
		g.feat("instrText")
	}
	for k := 0; t.More(k, 70, 2); k++ {
		g.budget--
		switch t.Weighted(8, 2, 2, 2) {
		case 0:
			n.Kids = append(n.Kids, g.Text())
		case 1:
			n.Kids = append(n.Kids, El("w:tab"))
		case 2:
			br := El("w:br")
			g.maybe(br, "w:type", g.str("page", "column", "textWrapping"))
			n.Kids = append(n.Kids, br)
		case 3:
			if g.NoDrawing || g.budget < 0 {
				n.Kids = append(n.Kids, g.Text())
				break
			}
			n.Kids = append(n.Kids, g.DrawingIn())
		}
	}
	return n
}

// anchorName is the name of a bookmark.
func anchorName(t *pbt.T) string {
	switch t.Weighted(4, 2, 1) {
	case 0:
		return pbt.Pick(t, "_Toc1", "part", "bm 1", "书签")
	case 1:
		return AttrString(t)
	}
	return pbt.Pick(t, "#part", "rId1", "rId4", "../x", "a#b", "_", "0", "http://a", "styles.xml")
}

// Hyperlink with one run.
func (g *G) Hyperlink() *xt.Node {
	t := g.T
	n := El("w:hyperlink")
	switch t.Weighted(4, 1, 1) {
	case 0:
		g.attr(n, "r:id", g.Link())
	case 1:
		g.attr(n, "w:anchor", anchorName(t))
		g.feat("anchor-link")
	default:
		g.attr(n, "r:id", g.Link())
		g.attr(n, "w:anchor", anchorName(t))
		g.feat("link+anchor")
	}
	n.Kids = append(n.Kids, g.Run(true))
	g.feat("hyperlink")
	return n
}

// Paragraph …
func (g *G) Paragraph() *xt.Node {
	t := g.T
	n := El("w:p")
	if t.Chance(1, 2) {
		n.Kids = append(n.Kids, g.PPr())
	}
	maxk := 6
	if t.Chance(1, 30) {
		maxk = 80
	}
	for k := 0; t.More(k, maxk, 3); k++ {
		g.budget--
		if !g.NoLink && t.Chance(1, 5) {
			n.Kids = append(n.Kids, g.Hyperlink())
		} else {
			n.Kids = append(n.Kids, g.Run(false))
		}
	}
	return n
}

func (g *G) border(name string) *xt.Node {
	n := El(name, "w:val", g.str("single", "nil", "double")())
	g.maybe(n, "w:sz", g.nz(1, 96))
	g.maybe(n, "w:space", g.num(0, 31))
	g.maybe(n, "w:color", g.color)
	return n
}

func (g *G) borders(name string) *xt.Node {
	n := El(name)
	for _, b := range []string{"w:top", "w:left", "w:bottom", "w:right", "w:insideH", "w:insideV"} {
		if g.T.Bool() {
			n.Kids = append(n.Kids, g.border(b))
		}
	}
	return n
}

func (g *G) width(name string) *xt.Node {
	n := El(name, "w:w", itoa(g.Num(0, 20000)))
	g.maybe(n, "w:type", g.str("dxa", "auto", "pct"))
	return n
}

// Table without nested tables.
func (g *G) Table() *xt.Node {
	t := g.T
	g.feat("table")
	n := El("w:tbl")
	pr := El("w:tblPr")
	if t.Chance(1, 4) {
		x := El("w:tblpPr")
		g.maybe(x, "w:leftFromText", g.num(0, 400))
		g.maybe(x, "w:rightFromText", g.num(0, 400))
		g.maybe(x, "w:vertAnchor", g.str("page", "text"))
		g.maybe(x, "w:horzAnchor", g.str("margin", "page"))
		g.maybe(x, "w:tblpXSpec", g.str("center", "left"))
		g.maybe(x, "w:tblpYSpec", g.str("top", "inline"))
		g.maybe(x, "w:tblpX", g.num(-1000, 9000))
		g.maybe(x, "w:tblpY", g.num(-1000, 9000))
		pr.Kids = append(pr.Kids, x)
	}
	if t.Bool() {
		pr.Kids = append(pr.Kids, g.val("w:tblStyle", g.str("a3", "TableGrid")))
	}
	if t.Bool() {
		pr.Kids = append(pr.Kids, g.width("w:tblW"))
	}
	if t.Bool() {
		pr.Kids = append(pr.Kids, g.val("w:jc", g.str("center", "start", "end")))
	}
	if t.Bool() {
		pr.Kids = append(pr.Kids, g.borders("w:tblBorders"))
	}
	if t.Bool() {
		x := El("w:tblLook", "w:val", pbt.Pick(t, "04A0", "0000", "07e0", "0620", "FFFF"))
		if t.Bool() {
			for _, f := range []string{"w:firstRow", "w:lastRow", "w:firstColumn", "w:lastColumn", "w:noHBand", "w:noVBand"} {
				if t.Chance(5, 6) {
					g.attr(x, f, g.flag())
				}
			}
		}
		pr.Kids = append(pr.Kids, x)
	}
	n.Kids = append(n.Kids, pr)
	cols := t.Int(1, 4)
	gr := El("w:tblGrid")
	for i := 0; i < cols; i++ {
		gr.Kids = append(gr.Kids, El("w:gridCol", "w:w", itoa(g.Num(0, 20000))))
	}
	n.Kids = append(n.Kids, gr)
	for r := 0; r == 0 || t.More(r, 8, 1); r++ {
		tr := El("w:tr")
		if t.Bool() {
			x := El("w:trPr")
			if t.Bool() {
				h := El("w:trHeight", "w:val", itoa(g.Num(0, 20000)))
				g.maybe(h, "w:hRule", g.str("exact", "atLeast", "auto"))
				x.Kids = append(x.Kids, h)
			}
			if t.Bool() {
				x.Kids = append(x.Kids, g.val("w:jc", g.str("center", "end")))
			}
			tr.Kids = append(tr.Kids, x)
		}
		nc := cols
		if t.Chance(1, 4) {
			nc = t.Int(0, 4)
		}
		for c := 0; c < nc; c++ {
			tc := El("w:tc")
			if t.Bool() {
				x := El("w:tcPr")
				if t.Bool() {
					x.Kids = append(x.Kids, g.width("w:tcW"))
				}
				if t.Chance(1, 4) {
					x.Kids = append(x.Kids, El("w:gridSpan", "w:val", itoa(t.Int(1, 6))))
				}
				if t.Chance(1, 4) {
					v := El("w:vMerge")
					g.maybe(v, "w:val", g.str("restart", "continue"))
					x.Kids = append(x.Kids, v)
				}
				if t.Chance(1, 4) {
					x.Kids = append(x.Kids, g.borders("w:tcBorders"))
				}
				if t.Chance(1, 4) {
					x.Kids = append(x.Kids, g.shd())
				}
				if t.Chance(1, 4) {
					x.Kids = append(x.Kids, g.val("w:vAlign", g.str("center", "bottom", "top")))
				}
				tc.Kids = append(tc.Kids, x)
			}
			for k := 0; k == 0 || t.More(k, 3, 1); k++ {
				if k == 0 && t.Chance(1, 14) {
					break // an empty cell
				}
				if g.budget > 0 {
					tc.Kids = append(tc.Kids, g.Paragraph())
				} else {
					tc.Kids = append(tc.Kids, El("w:p"))
					break
				}
			}
			tr.Kids = append(tr.Kids, tc)
		}
		n.Kids = append(n.Kids, tr)
	}
	return n
}

// SectPr …
func (g *G) SectPr() *xt.Node {
	t := g.T
	g.feat("sectPr")
	n := El("w:sectPr")
	if t.Chance(3, 4) {
		n.Kids = append(n.Kids, El("w:pgSz", "w:w", itoa(g.Num(0, 40000)), "w:h", itoa(g.Num(0, 40000))))
	}
	if t.Bool() {
		x := El("w:pgMar")
		for _, a := range []string{"w:top", "w:right", "w:bottom", "w:left", "w:header", "w:footer", "w:gutter"} {
			g.attr(x, a, itoa(g.Num(-500, 5000)))
		}
		n.Kids = append(n.Kids, x)
	}
	if t.Bool() {
		n.Kids = append(n.Kids, El("w:cols", "w:space", itoa(g.Num(0, 2000))))
	}
	if t.Bool() {
		x := El("w:docGrid", "w:linePitch", itoa(g.Num(0, 1000)))
		g.maybe(x, "w:type", g.str("lines", "default"))
		n.Kids = append(n.Kids, x)
	}
	return n
}

// Document makes a whole main document.
func (g *G) Document() *xt.Node {
	t := g.T
	body := El("w:body")
	for k := 0; t.More(k, 200, 4) && g.budget > 0; k++ {
		g.budget--
		if !g.NoTable && t.Chance(1, 6) {
			body.Kids = append(body.Kids, g.Table())
		} else {
			body.Kids = append(body.Kids, g.Paragraph())
		}
	}
	if t.Bool() {
		body.Kids = append(body.Kids, g.SectPr())
	}
	return El("w:document", body)
}
