package props

import (
	"bytes"
	"errors"
	"io"
	"regexp"
	"time"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/pbt"
)

func init() {
	tmo := 45 * time.Second
	register(&pbt.Prop{
		ID:    "C06",
		Level: "exploration",
		Rule:  "arbitrary bytes, damaged zips, packages with damaged, misplaced and contradictory XML, and arbitrary picture bytes; whatever is accepted is put through every operation; non-trivial: the input was accepted (or, for pictures and raw bytes, is not the plain output of a generator)",
		Assumptions: []string{
			"a case that does not end within 45 s or needs more than 10 GB counts as hanging",
		},
		Subs: []pbt.Sub{
			{Name: "markup", Quick: 5000, Weight: 4, Timeout: tmo, Fn: func(t *pbt.T) { c06(t, damaged(t)) }},
			{Name: "missing", Quick: 4000, Weight: 2, Timeout: tmo, Fn: func(t *pbt.T) { c06(t, missing(t)) }},
			{Name: "zip", Quick: 2500, Timeout: tmo, Fn: func(t *pbt.T) {
				in := foreign(t, nil, t.Bool(), nil)
				b := in.Zip
				switch t.Int(0, 3) {
				case 0:
					b = b[:t.Int(0, len(b))]
				case 1: // near the directory
					k := min(len(b), 300)
					b = append(b[:len(b)-k:len(b)-k], mutateBytes(t, b[len(b)-k:], t.Int(1, 6))...)
				default:
					b = mutateBytes(t, b, t.Int(1, 8))
				}
				c06(t, b)
			}},
			{Name: "bytes", Quick: 3000, Timeout: tmo, Fn: func(t *pbt.T) {
				b := docgen.Bytes(t)
				if t.Bool() {
					b = append([]byte("PK\x03\x04"), b...)
				}
				if t.Bool() {
					b = append(b, "PK\x05\x06\x00\x00\x00\x00\x01\x00\x01\x00\x2e\x00\x00\x00\x00\x00\x00\x00\x00\x00"...)
				}
				t.NonTrivial()
				c06(t, b)
			}},
			{Name: "reader", Quick: 1500, Timeout: tmo, Fn: c06reader},
			{Name: "deep", Quick: 40, Timeout: tmo, Fn: c06deep},
			{Name: "picture", Quick: 5000, Timeout: tmo, Fn: c06pic},
		},
	})
}

// c06 parses and, when accepted, does everything one can do with a document.
func c06(t *pbt.T, data []byte) {
	d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		t.Label("refused")
		return
	}
	if d == nil {
		t.Failf("nil", "Parse gives neither a document nor an error")
	}
	t.NonTrivial()
	t.Label("accepted")
	exercise(t, d, data)
}

func reparse(data []byte) *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return docx.New()
	}
	return d
}

func paragraphs(d *docx.Docx) []*docx.Paragraph {
	var out []*docx.Paragraph
	for _, it := range d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			out = append(out, o)
		case *docx.Table:
			for _, r := range o.TableRows {
				for _, c := range r.TableCells {
					out = append(out, c.Paragraphs...)
				}
			}
		}
	}
	return out
}

func exercise(t *pbt.T, d *docx.Docx, data []byte) {
	for _, it := range d.Document.Body.Items {
		_ = stringItem(it)
	}
	_, _ = d.WriteTo(io.Discard)
	_, _ = d.ReferTarget("rId1")
	_, _ = d.ReferID("x")
	_ = d.Media("image1.png")
	_ = d.RangeRelationships(func(*docx.Relationship) error { return errors.New("stop") })
	_, _ = d.Read(nil)
	for _, p := range paragraphs(d) {
		_ = p.String()
		np := p.MergeText(docx.MergeAllRuns)
		_ = np.String()
		np = p.MergeText(docx.MergeSamePropRuns)
		_ = np.String()
		np = p.MergeText(docx.MergeSamePropRunsOf("Bold", "Fonts"))
		_ = np.String()
	}
	// split
	n := 0
	for _, s := range d.SplitByParagraph(func(p *docx.Paragraph) bool { n++; return n%2 == 0 }) {
		_, _ = s.WriteTo(io.Discard)
		for _, it := range s.Document.Body.Items {
			_ = stringItem(it)
		}
	}
	re := regexp.MustCompile(`[a-m]`)
	_ = d.SplitByParagraph(docx.SplitDocxByPlainTextRegex(re))
	// append
	to := withTemplate(docx.New())
	to.AddParagraph().AddText("x")
	to.AppendFile(d)
	for _, it := range to.Document.Body.Items {
		_ = stringItem(it)
	}
	_, _ = to.WriteTo(io.Discard)
	// filter a second copy
	d2 := reparse(data)
	switch t.Int(0, 2) {
	case 0:
		for _, n := range drops {
			d2.Document.Body.DropDrawingOf(n)
		}
		d2.Document.Body.DropDrawingOf("Nothing")
	case 1:
		for _, p := range paragraphs(d2) {
			p.DropShape()
			p.DropCanvas()
			p.DropGroup()
			p.DropShapeAndCanvas()
			p.DropShapeAndCanvasAndGroup()
			p.DropNilPicture()
			for _, c := range p.Children {
				if r, ok := c.(*docx.Run); ok {
					r.KeepElements("*docx.Text", "*docx.Drawing")
				}
			}
			p.KeepElements("*docx.Run", "*docx.Hyperlink")
		}
	default:
		// formatting and more content on what was parsed
		for _, p := range paragraphs(d2) {
			p.Justification("center").Style("1").NumPr("1", "0").NumFont("a", "b", "c", "d").NumSize("3")
			for _, c := range p.Children {
				if r, ok := c.(*docx.Run); ok {
					r.Bold().Italic().Color("0").Size("1").SizeCs("1").Shade("a", "b", "c").Spacing(1).Underline("single").Highlight("red").Strike(true).AddTab().Font("a", "b", "c", "d")
				}
			}
			p.AddText("a\tb\n")
			p.AddLink("a", "http://b")
			_, _ = p.AddInlineDrawing(docgen.ImageOf("png", 3, 3, nil))
			p.AddAnchorShape(1, 2, "a", "auto", "rect", nil)
			p.AddPageBreaks()
		}
		for _, it := range d2.Document.Body.Items {
			if tb, ok := it.(*docx.Table); ok {
				tb.Justification("center")
				for _, r := range tb.TableRows {
					r.Justification("end")
					for _, c := range r.TableCells {
						c.Shade("a", "b", "c").AddParagraph().AddText("x")
					}
				}
			}
		}
		d2.AddTable(1, 1, 0, nil)
		d2.WithA4Page()
	}
	for _, dr := range bodyDrawings(d2) {
		if dr.Inline != nil {
			dr.Inline.Size(1, 2)
		}
		if dr.Anchor != nil {
			dr.Anchor.Size(3, 4)
		}
	}
	for _, it := range d2.Document.Body.Items {
		_ = stringItem(it)
	}
	_, _ = d2.WriteTo(io.Discard)
	// to itself
	if len(d2.Document.Body.Items) < 200 {
		d2.AppendFile(d2)
		_, _ = d2.WriteTo(io.Discard)
	}
	// from its items
	l := docx.LoadBodyItems(d2.Document.Body.Items, nil)
	_, _ = l.WriteTo(io.Discard)
	for _, it := range l.Document.Body.Items {
		_ = stringItem(it)
	}
}

// oddReader is a ReaderAt that gives short, failing or changing answers.
type oddReader struct {
	b    []byte
	n    int
	t    *pbt.T
	at   int
	mode int
}

func (r *oddReader) ReadAt(p []byte, off int64) (int, error) {
	r.n++
	if r.n >= r.at {
		switch r.mode {
		case 0:
			return 0, errors.New("broken")
		case 1:
			return 0, io.EOF
		case 2:
			if len(p) > 1 {
				n, _ := bytes.NewReader(r.b).ReadAt(p[:len(p)/2], off)
				return n, io.ErrUnexpectedEOF
			}
		}
	}
	return bytes.NewReader(r.b).ReadAt(p, off)
}

func c06reader(t *pbt.T) {
	in := foreign(t, nil, false, nil)
	size := int64(len(in.Zip))
	switch t.Int(0, 4) {
	case 1:
		size = int64(t.Int(-3, 3))
	case 2:
		size += int64(t.Int(-300, 300))
	case 3:
		size = pbt.Pick(t, int64(1)<<62, -1, 1<<31, 0)
	}
	r := &oddReader{b: in.Zip, t: t, at: t.Int(1, 40), mode: t.Int(0, 2)}
	t.NonTrivial()
	d, err := docx.Parse(r, size)
	if err == nil {
		_, _ = d.WriteTo(io.Discard)
	}
}

// c06deep nests elements deeply.
func c06deep(t *pbt.T) {
	units := [][2]string{
		{"<w:tbl><w:tr><w:tc>", "</w:tc></w:tr></w:tbl>"},
		{"<w:p><w:r><w:drawing><wp:inline><a:graphic><a:graphicData><wps:wsp><wps:txbx><w:txbxContent>", "</w:txbxContent></wps:txbx></wps:wsp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>"},
		{"<wpg:grpSp>", "</wpg:grpSp>"},
		{"<w:p><w:hyperlink><w:r>", "</w:r></w:hyperlink></w:p>"},
		{"<mc:AlternateContent><mc:Choice Requires=\"wps\">", "</mc:Choice></mc:AlternateContent>"},
		{"<x>", "</x>"},
	}
	u := units[t.Int(0, len(units)-1)]
	n := pbt.Pick(t, 3, 60, 1000, 20000)
	pre, post := "", ""
	if u[0] == "<wpg:grpSp>" {
		pre, post = "<w:p><w:r><w:drawing><wp:inline><a:graphic><a:graphicData><wpg:wgp>", "</wpg:wgp></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>"
	}
	var b bytes.Buffer
	b.WriteString(pre)
	for i := 0; i < n; i++ {
		b.WriteString(u[0])
	}
	if t.Chance(3, 4) {
		for i := 0; i < n; i++ {
			b.WriteString(u[1])
		}
		b.WriteString(post)
	}
	t.Logf("%d times %s", n, u[0])
	t.NonTrivial()
	data := miniZip(b.String(), nil)
	d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return
	}
	if n > 100 {
		_, _ = d.WriteTo(io.Discard)
		to := docx.New()
		to.AppendFile(d)
		for _, it := range to.Document.Body.Items {
			_ = stringItem(it)
		}
		return
	}
	exercise(t, d, data)
}

func c06pic(t *pbt.T) {
	var b []byte
	switch t.Int(0, 3) {
	case 0:
		b = docgen.Bytes(t)
	case 1:
		b = docgen.BadImage(t)
	case 2:
		b = docgen.Image(t)
		b = b[:t.Int(0, len(b))]
	default:
		b = mutateBytes(t, docgen.Image(t), t.Int(1, 4))
	}
	t.Logf("picture %s", docgen.Describe(b))
	t.NonTrivial()
	d := withTemplate(docx.New())
	p := d.AddParagraph()
	before := save(t, d)
	var err error
	if t.Bool() {
		_, err = p.AddInlineDrawing(b)
	} else {
		_, err = p.AddAnchorDrawing(b)
	}
	_ = p.String()
	after := save(t, d)
	if err != nil {
		t.Label("refused")
		a, z := open(t, before), open(t, after)
		for _, n := range z.Names {
			if !bytes.Equal(a.Parts[n], z.Parts[n]) {
				t.Failf("refused-changed", "refusing a picture (%v) changed %s", err, n)
			}
		}
		return
	}
	t.Label("accepted")
	exercise(t, d, after)
}
