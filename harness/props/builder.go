package props

import (
	"fmt"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

// B is a document under construction together with a model of its body, which is
// kept as the canonical form its main document must have when it is saved.
//
// In models the properties element always is the first child of a paragraph, run,
// table, row and cell, and a table has its grid as second child.
type B struct {
	t     *pbt.T
	d     *docx.Docx
	Items []*oox.C
	names bool           // names of drawings follow from the calls
	ids   map[string]int // last number per name
	// knobs
	shared    bool // properties may be shared with another document: only new things are styled
	noPic     bool
	noTable   bool
	noShape   bool
	noLink    bool
	noSect    bool
	noStyle   bool
	picHeavy  bool
	linkHeavy bool
	// what happened
	Pics, Links, Tables, Styles, Shapes, Refused int
	Added                                        [][]byte
	tag                                          string
}

func newB(t *pbt.T) *B {
	return &B{t: t, d: withTemplate(docx.New()), names: true, ids: map[string]int{}}
}

// wrapB starts with a parsed document of which the canonical brief body is known.
func wrapB(t *pbt.T, d *docx.Docx, items []*oox.C) *B {
	b := &B{t: t, d: d, ids: map[string]int{}}
	for _, c := range items {
		b.Items = append(b.Items, conv(c.Clone()))
	}
	return b
}

// conv brings a canonical form into the shape of models.
func conv(c *oox.C) *oox.C {
	for i := range c.Kids {
		c.Kids[i] = conv(c.Kids[i])
	}
	first := func(i int, name string) {
		if len(c.Kids) <= i || c.Kids[i].Name != name {
			c.Kids = append(c.Kids[:i:i], append([]*oox.C{oox.E(name)}, c.Kids[i:]...)...)
		}
	}
	switch c.Name {
	case "w:p":
		first(0, "w:pPr")
	case "w:r":
		first(0, "w:rPr")
	case "w:tbl":
		first(0, "w:tblPr")
		first(1, "w:tblGrid")
	case "w:tr":
		first(0, "w:trPr")
	case "w:tc":
		first(0, "w:tcPr")
	}
	return c
}

func (b *B) logf(f string, a ...any) {
	if b.t.Logging() {
		b.t.Logf("%s"+f, append([]any{b.tag}, a...)...)
	}
}

// set replaces a property.
func set(parent *oox.C, child *oox.C) {
	for i, k := range parent.Kids {
		if k.Name == child.Name {
			parent.Kids[i] = child
			return
		}
	}
	parent.Kids = append(parent.Kids, child)
}

func sub(parent *oox.C, name string) *oox.C {
	for _, k := range parent.Kids {
		if k.Name == name {
			return k
		}
	}
	c := oox.E(name)
	parent.Kids = append(parent.Kids, c)
	return c
}

func textC(s string) *oox.C {
	c := oox.E("w:t")
	c.Text = s
	if strings.Trim(s, " \t\r\n") != s {
		c.At["xml:space"] = "preserve"
	}
	return c
}

// textRun is the model of an added text.
func textRun(s string) *oox.C {
	r := oox.E("w:r").Add(oox.E("w:rPr"))
	for i, l := range strings.Split(s, "\n") {
		if i > 0 {
			r.Add(oox.E("w:br"))
		}
		for j, k := range strings.Split(l, "\t") {
			if j > 0 {
				r.Add(oox.E("w:tab"))
			}
			if k != "" {
				r.Add(textC(k))
			}
		}
	}
	return r
}

func linkC(text, url string) *oox.C {
	it := oox.E("w:instrText")
	it.Text = text
	return oox.E("w:hyperlink", "link", "External|"+url).Add(
		oox.E("w:r").Add(oox.E("w:rPr").Add(oox.E("w:rStyle", "w:val", "a3")), it))
}

// paragraph with its model.
type pp struct {
	p *docx.Paragraph
	c *oox.C
}

// para at body position i, or none.
func (b *B) item(i int) any {
	if i >= len(b.d.Document.Body.Items) {
		b.t.Failf("items", "the document has %d body items, expected %d", len(b.d.Document.Body.Items), len(b.Items))
	}
	it := b.d.Document.Body.Items[i]
	if kindItem(it) != b.Items[i].Name {
		b.t.Failf("items", "body item %d is %s, expected %s", i, kindItem(it), b.Items[i].Name)
	}
	return it
}

// paras lists the paragraphs of the body and of cells.
func (b *B) paras() []pp {
	var out []pp
	for i, c := range b.Items {
		switch c.Name {
		case "w:p":
			out = append(out, pp{b.item(i).(*docx.Paragraph), c})
		case "w:tbl":
			tb := b.item(i).(*docx.Table)
			for r, rc := range c.Kids[2:] {
				if r >= len(tb.TableRows) {
					b.t.Failf("items", "table %d has %d rows, expected %d", i, len(tb.TableRows), len(c.Kids)-2)
				}
				for k, cc := range rc.Kids[1:] {
					if k >= len(tb.TableRows[r].TableCells) {
						b.t.Failf("items", "table %d row %d has %d cells, expected %d", i, r, len(tb.TableRows[r].TableCells), len(rc.Kids)-1)
					}
					cell := tb.TableRows[r].TableCells[k]
					n := 0
					for _, pc := range cc.Kids[1:] {
						if pc.Name != "w:p" {
							continue
						}
						if n >= len(cell.Paragraphs) {
							b.t.Failf("items", "table %d row %d cell %d has %d paragraphs, more expected", i, r, k, len(cell.Paragraphs))
						}
						out = append(out, pp{cell.Paragraphs[n], pc})
						n++
					}
				}
			}
		}
	}
	return out
}

// run with its model.
type rr struct {
	r    *docx.Run
	c    *oox.C
	link bool
}

func (b *B) runs(p pp) []rr {
	var out []rr
	i := 0
	for _, k := range p.p.Children {
		for i < len(p.c.Kids) && p.c.Kids[i].Name != "w:r" && p.c.Kids[i].Name != "w:hyperlink" {
			i++
		}
		var r *docx.Run
		switch x := k.(type) {
		case *docx.Run:
			r = x
		case *docx.Hyperlink:
			r = &x.Run
		default:
			b.t.Failf("items", "a paragraph holds a %T", k)
		}
		if i >= len(p.c.Kids) {
			b.t.Failf("items", "a paragraph holds more than expected: %q", short(p.p.String()))
		}
		c := p.c.Kids[i]
		_, isLink := k.(*docx.Hyperlink)
		if isLink != (c.Name == "w:hyperlink") {
			b.t.Failf("items", "a paragraph holds a %T where %s is expected", k, c.Name)
		}
		if isLink {
			c = c.Kids[0]
		}
		out = append(out, rr{r, c, isLink})
		i++
	}
	return out
}

func (b *B) addPara() pp {
	p := b.d.AddParagraph()
	c := oox.E("w:p").Add(oox.E("w:pPr"))
	b.Items = append(b.Items, c)
	b.logf("p%d = AddParagraph", len(b.Items)-1)
	return pp{p, c}
}

// pickPara chooses a paragraph, the newest most of the time.
func (b *B) pickPara() pp {
	ps := b.paras()
	if len(ps) == 0 {
		return b.addPara()
	}
	if b.t.Chance(1, 3) {
		i := b.t.Int(0, len(ps)-1)
		b.logf("at paragraph %d", i)
		return ps[i]
	}
	return ps[len(ps)-1]
}

func (b *B) text() string {
	if b.t.Chance(1, 12) {
		return pbt.Pick(b.t, "\t", "\n", "", " ", "\t\t", "\n\t", " \n ", "\r", "\r\n", "a\rb")
	}
	return docgen.String(b.t, 10)
}

func (b *B) addText(p pp) rr {
	s := b.text()
	b.logf("AddText(%q)", s)
	r := p.p.AddText(s)
	c := textRun(s)
	p.c.Add(c)
	return rr{r, c, false}
}

func (b *B) addLink(p pp) rr {
	s, u := b.text(), docgen.URL(b.t)
	b.logf("AddLink(%q, %q)", s, u)
	h := p.p.AddLink(s, u)
	c := linkC(s, u)
	p.c.Add(c)
	b.Links++
	return rr{&h.Run, c.Kids[0], true}
}

func (b *B) nextID(name string) string {
	b.ids[name]++
	return name + " " + strconv.Itoa(b.ids[name])
}

func picSize(w, h int) (int64, int64) {
	const full = 5274310
	if float64(w)/float64(h) > 1.2 {
		return full, full * int64(h) / int64(w)
	}
	return full / 2, full * int64(h) / int64(w) / 2
}

func dims(w, h int64) string { return fmt.Sprintf("%dx%d", w, h) }

func (b *B) addPic(p pp) {
	data, format, w, h := docgen.ImageInfo(b.t)
	if len(b.Added) > 0 && b.t.Chance(1, 5) { // the same picture again
		data = b.Added[b.t.Int(0, len(b.Added)-1)]
		format, w, h = "", 0, 0
	}
	b.addPicData(p, data, format, w, h)
}

func (b *B) addPicData(p pp, data []byte, format string, w, h int) rr {
	anchor := b.t.Bool()
	b.logf("Add picture anchor=%v %s %dx%d md5 %s", anchor, format, w, h, oox.Sum(data))
	var r *docx.Run
	var err error
	c := oox.E("drawing", "mode", "inline")
	if anchor {
		r, err = p.p.AddAnchorDrawing(data)
		c = oox.E("drawing", "mode", "anchor", "wrap", "none")
	} else {
		r, err = p.p.AddInlineDrawing(data)
	}
	if err != nil {
		b.t.Failf("picture-refused", "a %s picture of %dx%d is refused: %v", format, w, h, err)
	}
	name := b.nextID("图片")
	if b.names {
		c.At["name"] = name
	}
	c.At["kind"], c.At["prst"], c.At["media"] = "pic", "rect", oox.Sum(data)
	var host interface{ Size(w, h int64) }
	var ex *docx.WPExtent
	if d, ok := r.Children[0].(*docx.Drawing); ok {
		if anchor && d.Anchor != nil {
			host, ex = d.Anchor, d.Anchor.Extent
		}
		if !anchor && d.Inline != nil {
			host, ex = d.Inline, d.Inline.Extent
		}
	}
	if host == nil || ex == nil {
		b.t.Failf("picture-run", "the run of an added picture holds %T", r.Children[0])
	}
	cx, cy := ex.CX, ex.CY
	if b.t.Chance(1, 4) {
		cx, cy = docgen.AnyEmu(b.t), docgen.AnyEmu(b.t)
		b.logf("Size(%d, %d)", cx, cy)
		host.Size(cx, cy)
	}
	c.At["extent"] = dims(cx, cy)
	c.At["ext"] = dims(cx, cy)
	rc := oox.E("w:r").Add(oox.E("w:rPr"), c)
	p.c.Add(rc)
	b.Pics++
	b.Added = append(b.Added, data)
	return rr{r, rc, false}
}

// badPic tries to add something which is refused.
func (b *B) badPic(p pp) {
	data := docgen.BadImage(b.t)
	b.logf("Add bad picture %s", docgen.Describe(data))
	var err error
	if b.t.Bool() {
		_, err = p.p.AddAnchorDrawing(data)
	} else {
		_, err = p.p.AddInlineDrawing(data)
	}
	if err == nil {
		b.t.Failf("bad-picture", "the picture %q is accepted", data)
	}
	b.Refused++
}

func lineOf(t *pbt.T) (*docx.ALine, *oox.C) {
	if t.Chance(1, 3) {
		return nil, nil
	}
	l := &docx.ALine{}
	c := oox.E("a:ln")
	if t.Bool() {
		l.W = int64(t.Int(1, 100000))
		c.At["w"] = strconv.FormatInt(l.W, 10)
	}
	if t.Bool() {
		l.Cap = pbt.Pick(t, "flat", "rnd", "sq")
		c.At["cap"] = l.Cap
	}
	if t.Bool() {
		l.Compound = "sng"
		c.At["cmpd"] = "sng"
	}
	if t.Bool() {
		l.Align = "ctr"
		c.At["algn"] = "ctr"
	}
	switch t.Int(0, 2) {
	case 1:
		l.NoFill = &struct{}{}
		c.Add(oox.E("a:noFill"))
	case 2:
		v := fmt.Sprintf("%06X", t.Draw(1<<24))
		l.SolidFill = &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: v}}
		c.Add(oox.E("a:solidFill").Add(oox.E("a:srgbClr", "val", v)))
	}
	if t.Bool() {
		l.PrstDash = &docx.APrstDash{Val: "dash"}
		c.Add(oox.E("a:prstDash", "val", "dash"))
	}
	switch t.Int(0, 2) {
	case 1:
		l.Round = &struct{}{}
		c.Add(oox.E("a:round"))
	case 2:
		l.Miter = &docx.AMiter{Limit: "800000"}
		c.Add(oox.E("a:miter", "lim", "800000"))
	}
	if t.Bool() {
		l.HeadEnd = &docx.AHeadEnd{Type: "triangle", W: "med"}
		c.Add(oox.E("a:headEnd", "type", "triangle", "w", "med"))
	}
	if t.Bool() {
		l.TailEnd = &docx.ATailEnd{Len: "sm"}
		c.Add(oox.E("a:tailEnd", "len", "sm"))
	}
	return l, c
}

func (b *B) addShape(p pp) rr {
	t := b.t
	anchor := t.Bool()
	w, h := docgen.AnyEmu(t), docgen.AnyEmu(t)
	name := pbt.Pick(t, "矩形", "图片", "line", docgen.Line(t, 3))
	bw := pbt.Pick(t, "", "auto", "white")
	prst := pbt.Pick(t, "rect", "line", "ellipse", "")
	ln, lc := lineOf(t)
	b.logf("Add shape anchor=%v %dx%d %q %q %q line=%v", anchor, w, h, name, bw, prst, ln != nil)
	var r *docx.Run
	c := oox.E("drawing", "mode", "inline")
	if anchor {
		r = p.p.AddAnchorShape(w, h, name, bw, prst, ln)
		c = oox.E("drawing", "mode", "anchor", "wrap", "none")
	} else {
		r = p.p.AddInlineShape(w, h, name, bw, prst, ln)
	}
	full := b.nextID(name)
	if b.names {
		c.At["name"] = full
	}
	c.At["kind"], c.At["prst"], c.At["extent"], c.At["ext"] = "shape", prst, dims(w, h), dims(w, h)
	if bw != "" {
		c.At["bwMode"] = bw
	}
	if lc != nil {
		c.Add(lc)
	}
	rc := oox.E("w:r").Add(oox.E("w:rPr"), c)
	p.c.Add(rc)
	b.Shapes++
	return rr{r, rc, false}
}

// Word values for attributes.
func (b *B) val(v ...string) string {
	if b.t.Chance(1, 10) {
		return docgen.AttrString(b.t)
	}
	return pbt.Pick(b.t, v...)
}

func omitEmpty(name string, at ...string) *oox.C {
	c := oox.E(name)
	for i := 0; i+1 < len(at); i += 2 {
		if at[i+1] != "" {
			c.At[at[i]] = at[i+1]
		}
	}
	return c
}

// styleRun makes one formatting call on a run.
func (b *B) styleRun(x rr) {
	t := b.t
	pr := x.c.Kids[0]
	b.Styles++
	switch t.Int(0, 11) {
	case 0:
		v := b.val("FF0000", "auto", "00ff00", "#808080")
		b.logf(" Color(%q)", v)
		x.r.Color(v)
		set(pr, oox.E("w:color", "w:val", v))
	case 1:
		v := b.val("24", "44", "1")
		b.logf(" Size(%q)", v)
		x.r.Size(v)
		set(pr, oox.E("w:sz", "w:val", v))
	case 2:
		v := b.val("24", "44", "1")
		b.logf(" SizeCs(%q)", v)
		x.r.SizeCs(v)
		set(pr, oox.E("w:szCs", "w:val", v))
	case 3:
		v, c, f := b.val("clear", "solid"), b.val("auto", "FF0000"), b.val("E7E6E6", "auto")
		b.logf(" Shade(%q,%q,%q)", v, c, f)
		x.r.Shade(v, c, f)
		set(pr, oox.E("w:shd", "w:val", v, "w:color", c, "w:fill", f))
	case 4:
		n := t.Int(-200, 400)
		if n == 0 {
			n = 7 // zero: recorded finding K1
		}
		b.logf(" Spacing(%d)", n)
		x.r.Spacing(n)
		set(pr, oox.E("w:spacing", "w:val", strconv.Itoa(n)))
	case 5:
		b.logf(" Bold")
		x.r.Bold()
		set(pr, oox.E("w:b", "w:val", "1"))
	case 6:
		b.logf(" Italic")
		x.r.Italic()
		set(pr, oox.E("w:i", "w:val", "1"))
	case 7:
		v := b.val("none", "single", "words", "double", "thick", "dotted", "dash", "dotDash", "dotDotDash", "wave", "dashLong", "wavyDouble")
		b.logf(" Underline(%q)", v)
		x.r.Underline(v)
		set(pr, oox.E("w:u", "w:val", v))
	case 8:
		v := b.val("yellow", "red")
		b.logf(" Highlight(%q)", v)
		x.r.Highlight(v)
		set(pr, oox.E("w:highlight", "w:val", v))
	case 9:
		v := t.Bool()
		b.logf(" Strike(%v)", v)
		x.r.Strike(v)
		set(pr, oox.E("w:strike", "w:val", map[bool]string{true: "1", false: "0"}[v]))
	case 10:
		a, e, h, hint := b.val("Arial", "宋体", ""), b.val("宋体", ""), b.val("Calibri", ""), b.val("eastAsia", "default", "")
		b.logf(" Font(%q,%q,%q,%q)", a, e, h, hint)
		x.r.Font(a, e, h, hint)
		set(pr, omitEmpty("w:rFonts", "w:ascii", a, "w:eastAsia", e, "w:hAnsi", h, "w:hint", hint))
	default:
		b.logf(" AddTab")
		x.r.AddTab()
		x.c.Add(oox.E("w:tab"))
	}
}

// stylePara makes one formatting call on a paragraph.
func (b *B) stylePara(p pp) {
	pr := p.c.Kids[0]
	b.Styles++
	switch b.t.Int(0, 4) {
	case 0:
		v := b.val("start", "center", "end", "both", "distribute")
		b.logf("Justification(%q)", v)
		p.p.Justification(v)
		set(pr, oox.E("w:jc", "w:val", v))
	case 1:
		v := b.val("1", "Heading1", "a3")
		b.logf("Style(%q)", v)
		p.p.Style(v)
		set(pr, oox.E("w:pStyle", "w:val", v))
	case 2:
		n, l := b.val("1", "2", "0"), b.val("0", "1", "8")
		b.logf("NumPr(%q,%q)", n, l)
		p.p.NumPr(n, l)
		set(pr, oox.E("w:numPr").Add(oox.E("w:numId", "w:val", n), oox.E("w:ilvl", "w:val", l)))
	case 3:
		a, e, h, hint := b.val("Arial", ""), b.val("宋体", ""), b.val("Calibri", ""), b.val("eastAsia", "")
		b.logf("NumFont(%q,%q,%q,%q)", a, e, h, hint)
		p.p.NumFont(a, e, h, hint)
		set(sub(pr, "w:rPr"), omitEmpty("w:rFonts", "w:ascii", a, "w:eastAsia", e, "w:hAnsi", h, "w:hint", hint))
	default:
		v := b.val("24", "44")
		b.logf("NumSize(%q)", v)
		p.p.NumSize(v)
		set(sub(pr, "w:rPr"), oox.E("w:sz", "w:val", v))
	}
}

var sides = []string{"top", "left", "bottom", "right", "insideH", "insideV"}

// colors makes border colours: what is passed and what is expected for each side.
func colors(t *pbt.T) (*docx.APITableBorderColors, map[string]string) {
	want := map[string]string{}
	for _, s := range sides {
		want[s] = "#000000"
	}
	if t.Chance(1, 2) {
		return nil, want
	}
	c := &docx.APITableBorderColors{}
	for i, p := range []*string{&c.Top, &c.Left, &c.Bottom, &c.Right, &c.InsideH, &c.InsideV} {
		if t.Bool() {
			*p = pbt.Pick(t, "#ff0000", "00FF00", "auto", fmt.Sprintf("%06X", t.Draw(1<<24)))
			want[sides[i]] = *p
		}
	}
	return c, want
}

func tblPrModel(width int64, want map[string]string) *oox.C {
	pr := oox.E("w:tblPr")
	if width > 0 {
		pr.Add(oox.E("w:tblW", "w:w", strconv.FormatInt(width, 10)))
	} else {
		pr.Add(oox.E("w:tblW", "w:type", "auto", "w:w", "0"))
	}
	bd := oox.E("w:tblBorders")
	for _, s := range sides {
		bd.Add(oox.E("w:"+s, "w:val", "single", "w:sz", "4", "w:color", want[s]))
	}
	pr.Add(bd)
	pr.Add(oox.E("w:tblLook", "w:val", "0000", "w:firstRow", "0", "w:lastRow", "0", "w:firstColumn", "0", "w:lastColumn", "0", "w:noHBand", "0", "w:noVBand", "0"))
	return pr
}

// addTable creates a table and gives each cell a paragraph.
func (b *B) addTable(maxr, maxc int) (*docx.Table, *oox.C) {
	t := b.t
	width := int64(pbt.Pick(t, 0, -1, 1, 5000, 20000))
	bc, want := colors(t)
	tb := oox.E("w:tbl")
	var lt *docx.Table
	if t.Bool() {
		rows, cols := t.Int(1, maxr), t.Int(1, maxc)
		b.logf("AddTable(%d,%d,%d,%+v)", rows, cols, width, bc)
		lt = b.d.AddTable(rows, cols, width, bc)
		tb.Add(tblPrModel(width, want), oox.E("w:tblGrid"))
		for i := 0; i < rows; i++ {
			tr := oox.E("w:tr").Add(oox.E("w:trPr"))
			for j := 0; j < cols; j++ {
				tr.Add(oox.E("w:tc").Add(oox.E("w:tcPr").Add(oox.E("w:tcW", "w:type", "auto", "w:w", "0"))))
			}
			tb.Add(tr)
		}
	} else {
		var hs, ws []int64
		for k := 0; k == 0 || t.More(k, maxr, 2); k++ {
			hs = append(hs, int64(pbt.Pick(t, 0, 300, -5, 1, t.Int(1, 5000))))
		}
		for k := 0; k == 0 || t.More(k, maxc, 2); k++ {
			ws = append(ws, int64(pbt.Pick(t, 0, 2000, -3, 1, t.Int(1, 5000))))
		}
		b.logf("AddTableTwips(%v,%v,%d,%+v)", hs, ws, width, bc)
		lt = b.d.AddTableTwips(hs, ws, width, bc)
		gr := oox.E("w:tblGrid")
		for _, w := range ws {
			if w > 0 {
				gr.Add(oox.E("w:gridCol", "w:w", strconv.FormatInt(w, 10)))
			}
		}
		tb.Add(tblPrModel(width, want), gr)
		for _, h := range hs {
			pr := oox.E("w:trPr")
			if h > 0 {
				pr.Add(oox.E("w:trHeight", "w:val", strconv.FormatInt(h, 10)))
			}
			tr := oox.E("w:tr").Add(pr)
			for _, w := range ws {
				tr.Add(oox.E("w:tc").Add(oox.E("w:tcPr").Add(oox.E("w:tcW", "w:type", "dxa", "w:w", strconv.FormatInt(w, 10)))))
			}
			tb.Add(tr)
		}
	}
	b.Items = append(b.Items, tb)
	b.Tables++
	if len(lt.TableRows) != len(tb.Kids)-2 {
		t.Failf("table-shape", "the table has %d rows, expected %d", len(lt.TableRows), len(tb.Kids)-2)
	}
	for i, r := range lt.TableRows {
		rc := tb.Kids[i+2]
		if len(r.TableCells) != len(rc.Kids)-1 {
			t.Failf("table-shape", "row %d has %d cells, expected %d", i, len(r.TableCells), len(rc.Kids)-1)
		}
		for j, c := range r.TableCells {
			c.AddParagraph()
			rc.Kids[j+1].Add(oox.E("w:p").Add(oox.E("w:pPr")))
		}
	}
	return lt, tb
}

// tables of the body.
func (b *B) tables() (out []int) {
	for i, c := range b.Items {
		if c.Name == "w:tbl" {
			out = append(out, i)
		}
	}
	return
}

// editTable works on an existing table.
func (b *B) editTable(i int) {
	t := b.t
	tb, tc := b.item(i).(*docx.Table), b.Items[i]
	if len(tc.Kids) < 3 || len(tb.TableRows) == 0 {
		return
	}
	r := t.Int(0, len(tc.Kids)-3)
	if r >= len(tb.TableRows) {
		t.Failf("table-shape", "the table has %d rows, expected %d", len(tb.TableRows), len(tc.Kids)-2)
	}
	row, rc := tb.TableRows[r], tc.Kids[r+2]
	op := t.Int(0, 3)
	if b.shared || b.noStyle {
		op = 0
	}
	switch op {
	case 1:
		v := b.val("start", "center", "end")
		b.logf("table %d Justification(%q)", i, v)
		tb.Justification(v)
		set(tc.Kids[0], oox.E("w:jc", "w:val", v))
		b.Styles++
	case 2:
		v := b.val("start", "center", "end")
		b.logf("table %d row %d Justification(%q)", i, r, v)
		row.Justification(v)
		set(rc.Kids[0], oox.E("w:jc", "w:val", v))
		b.Styles++
	default:
		if len(rc.Kids) < 2 {
			return
		}
		k := t.Int(0, len(rc.Kids)-2)
		if k >= len(row.TableCells) {
			t.Failf("table-shape", "row %d has %d cells, expected %d", r, len(row.TableCells), len(rc.Kids)-1)
		}
		cell, cc := row.TableCells[k], rc.Kids[k+1]
		if op == 3 {
			v, c, f := b.val("clear", "solid"), b.val("auto", "FF0000"), b.val("E7E6E6", "auto")
			b.logf("table %d cell %d,%d Shade(%q,%q,%q)", i, r, k, v, c, f)
			cell.Shade(v, c, f)
			set(cc.Kids[0], oox.E("w:shd", "w:val", v, "w:color", c, "w:fill", f))
			b.Styles++
			return
		}
		b.logf("table %d cell %d,%d AddParagraph", i, r, k)
		p := cell.AddParagraph()
		pc := oox.E("w:p").Add(oox.E("w:pPr"))
		cc.Add(pc)
		switch x := (pp{p, pc}); t.Weighted(2, 2, 1, 1) {
		case 1:
			b.addText(x)
		case 2:
			if !b.noPic {
				b.addPic(x)
			}
		case 3:
			if !b.noLink {
				b.addLink(x)
			}
		}
	}
}

// step makes one random call.
func (b *B) step() {
	t := b.t
	wPic, wTab, wShape, wLink, wSect, wSty := 3, 2, 2, 3, 1, 6
	if b.noPic {
		wPic = 0
	}
	if b.noTable {
		wTab = 0
	}
	if b.noShape {
		wShape = 0
	}
	if b.noLink {
		wLink = 0
	}
	if b.noSect {
		wSect = 0
	}
	if b.noStyle {
		wSty = 0
	}
	if b.picHeavy {
		wPic = 12
	}
	if b.linkHeavy {
		wLink = 12
	}
	wEdit := 0
	if len(b.tables()) > 0 {
		wEdit = 3
	}
	var last *rr
	got := func(x rr) { last = &x }
	switch t.Weighted(6, 8, 2, 1, wLink, wPic, wShape, wTab, wEdit, wSty, wSect) {
	case 0:
		b.addPara()
	case 1:
		got(b.addText(b.pickPara()))
	case 2:
		p := b.pickPara()
		b.logf("AddTab")
		r := p.p.AddTab()
		c := oox.E("w:r").Add(oox.E("w:rPr"), oox.E("w:tab"))
		p.c.Add(c)
		got(rr{r, c, false})
	case 3:
		p := b.pickPara()
		b.logf("AddPageBreaks")
		r := p.p.AddPageBreaks()
		c := oox.E("w:r").Add(oox.E("w:rPr"), oox.E("w:br", "w:type", "page"))
		p.c.Add(c)
		got(rr{r, c, false})
	case 4:
		got(b.addLink(b.pickPara()))
	case 5:
		p := b.pickPara()
		if t.Chance(1, 8) {
			b.badPic(p)
			break
		}
		b.addPic(p)
	case 6:
		got(b.addShape(b.pickPara()))
	case 7:
		b.addTable(4, 4)
	case 8:
		ts := b.tables()
		b.editTable(ts[t.Int(0, len(ts)-1)])
	case 9:
		if b.shared {
			p := b.addPara()
			b.stylePara(p)
			got(b.addText(p))
			break
		}
		p := b.pickPara()
		if t.Bool() {
			b.stylePara(p)
			break
		}
		rs := b.runs(p)
		if len(rs) == 0 {
			b.stylePara(p)
			break
		}
		i := t.Int(0, len(rs)-1)
		b.logf("at run %d", i)
		b.styleRun(rs[i])
	case 10:
		if t.Bool() {
			b.logf("WithA4Page")
			b.d.WithA4Page()
			b.Items = append(b.Items, oox.E("w:sectPr").Add(oox.E("w:pgSz", "w:w", "11906", "w:h", "16838")))
		} else {
			b.logf("WithA3Page")
			b.d.WithA3Page()
			b.Items = append(b.Items, oox.E("w:sectPr").Add(oox.E("w:pgSz", "w:w", "16838", "w:h", "23811")))
		}
	}
	if last != nil && !b.noStyle {
		for k := 0; t.More(k, 6, 1); k++ {
			b.styleRun(*last)
		}
	}
}

// Want is the canonical body expected in a saved package.
func (b *B) Want() []*oox.C { return norm(b.Items, b.names) }

func (b *B) opt() oox.Opt { return oox.Opt{Brief: true, NoNames: !b.names} }

// save and compare with the model.
func (b *B) save(what string) ([]byte, *oox.Pkg) {
	data := save(b.t, b.d)
	p := open(b.t, data)
	same(b.t, "content", what, b.Want(), p.Body(b.opt()))
	return data, p
}

// reopen replaces the document by its saved and parsed form.
func (b *B) reopen(what string) {
	data, _ := b.save(what)
	b.d = parse(b.t, data)
	b.ids = map[string]int{}
	if b.names {
		b.fixNames(data)
	}
	b.shared = false
	b.logf("save and reopen")
}

// fixNames: after reopening the numbers of new names are not foretold, so names are
// not part of the model any more.
func (b *B) fixNames([]byte) {
	b.names = false
	for i, c := range b.Items {
		b.Items[i] = c.Strip()
	}
}
