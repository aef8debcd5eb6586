package props

import (
	"archive/zip"
	"bytes"
	"errors"
	"io"
	"time"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// what may be there any number of times
var repeatable = map[string]bool{
	"p": true, "r": true, "t": true, "tab": true, "br": true, "hyperlink": true, "drawing": true,
	"tbl": true, "tr": true, "tc": true, "gridCol": true, "wsp": true, "pic": true,
}

// widened repeats something of a document very often, side by side.
func widened(t *pbt.T, doc *xt.Node) {
	type place struct {
		n *xt.Node
		i int
	}
	by := map[string][]place{}
	var names []string
	var look func(n *xt.Node)
	look = func(n *xt.Node) {
		for i, k := range n.Kids {
			if k.Local == "" {
				continue
			}
			if repeatable[k.Local] && n.Local != "hyperlink" && n.Local != "Choice" && !(k.Local == "pic" && n.Local == "graphicData") && !(k.Local == "wsp" && n.Local == "graphicData") {
				s := n.Local + "/" + k.Local
				if by[s] == nil {
					names = append(names, s)
				}
				by[s] = append(by[s], place{n, i})
			}
			look(k)
		}
	}
	look(doc)
	if len(names) == 0 {
		t.Discard()
	}
	s := names[t.Int(0, len(names)-1)]
	p := by[s][t.Int(0, len(by[s])-1)]
	x := p.n.Kids[p.i]
	weight := 0
	x.Walk(func(*xt.Node) { weight++ })
	n := pbt.Pick(t, 20, 33, 65, 129, 257, 600, 1025, 3000) + t.Int(0, 5)
	n = max(3, min(n, 30000/weight))
	bare := (x.Local == "p" || x.Local == "r") && t.Chance(1, 3)
	var many []*xt.Node
	for i := 0; i < n; i++ {
		y := x.Clone()
		if bare && i%3 == 1 {
			y.Kids = nil
		}
		many = append(many, y)
	}
	p.n.Kids = append(p.n.Kids[:p.i:p.i], append(many, p.n.Kids[p.i:]...)...)
	t.Logf("%d more of %s", n, s)
	if n >= 20 {
		t.NonTrivial()
	}
	t.Label(s)
}

// wide is a package with a widened document.
func wide(t *pbt.T) (*docgen.G, *docgen.Package) {
	g := docgen.New(t)
	doc := g.Document()
	widened(t, doc)
	return g, g.Build(doc, nil, false)
}

func wideSub(name string, quick int, fn func(*pbt.T)) pbt.Sub {
	return pbt.Sub{Name: name, Quick: quick, Workers: 4, Timeout: 2 * time.Minute, Fn: fn}
}

func c02wide(t *pbt.T) {
	_, in := wide(t)
	src := open(t, in.Zip)
	p := open(t, save(t, parse(t, in.Zip)))
	same(t, "content", "parsed and saved document", src.Body(oox.Opt{}), p.Body(oox.Opt{}))
}

func c07wide(t *pbt.T) {
	g, in := wide(t)
	st := docgen.RandomStyle(t)
	doc := st.Marshal(in.Doc)
	t.Logf("style %s", st)
	compareSpelled(t, in.Zip, respell(in, doc, relsStyled(t, g.Rels)))
}

func c12wide(t *pbt.T) {
	_, in := wide(t)
	src := parse(t, in.Zip)
	before := save(t, src)
	w := newWorld(t)
	dst := fill(w.add(), 4)
	_, dp := w.check(dst)
	want := full(dp)
	dst.d.AppendFile(src)
	want = append(want, full(open(t, before))...)
	same(t, "appended", "after appending", want, full(open(t, save(t, dst.d))))
	sameParts(t, "source-changed", "the appended document", before, save(t, src))
}

func c13wide(t *pbt.T) {
	_, in := wide(t)
	d := parse(t, in.Zip)
	before := save(t, d)
	whole := full(open(t, before))
	set := map[*docx.Paragraph]bool{}
	for _, it := range d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok && t.Chance(1, 3) {
			set[p] = true
		}
	}
	var got []*oox.C
	for _, x := range d.SplitByParagraph(func(p *docx.Paragraph) bool { return set[p] }) {
		got = append(got, full(open(t, save(t, x)))...)
	}
	same(t, "piece", "all pieces", whole, got)
	sameParts(t, "source-changed", "the split document", before, save(t, d))
}

func c14wide(t *pbt.T) {
	_, in := wide(t)
	c14check(t, parse(t, in.Zip))
}

func c16wide(t *pbt.T) {
	_, in := wide(t)
	d := parse(t, in.Zip)
	want := open(t, save(t, d)).Body(oox.Opt{})
	var cnt [2]int
	name := dropName(t)
	t.Logf("DropDrawingOf(%q)", name)
	dropBody(want, dropKinds[name], &cnt)
	d.Document.Body.DropDrawingOf(name)
	same(t, "dropped", "after dropping", norm(want, true), open(t, save(t, d)).Body(oox.Opt{}))
}

func c22wide(t *pbt.T) {
	_, in := wide(t)
	want := open(t, in.Zip).Body(oox.Opt{Brief: true})
	d := parse(t, in.Zip)
	checkPlain(t, "parsed document", want, d, true)
	d = parse(t, save(t, d))
	checkPlain(t, "saved and reopened document", want, d, true)
}

func c28wide(t *pbt.T) {
	_, in := wide(t)
	c28(t, in.Zip)
}

// longPackage is a package whose main document is much longer than any buffer.
func longPackage(t *pbt.T) (*docgen.Package, []byte, *oox.Pkg) {
	g := docgen.New(t)
	doc := g.Document()
	body := doc.Elems()[0]
	p := g.Paragraph()
	weight := 0
	p.Walk(func(*xt.Node) { weight++ })
	for n := max(2, t.Int(500, 12000)/weight); n > 0; n-- {
		body.Kids = append([]*xt.Node{p}, body.Kids...)
	}
	in := g.Build(doc, nil, false)
	z := docgen.WriteZip(in.Parts, t.Bool(), false)
	out, err := outcome(bytes.NewReader(z), int64(len(z)))
	if err != nil {
		t.Failf("refused", "the undamaged package is refused: %v", err)
	}
	return in, z, open(t, out)
}

// c08long damages long documents.
func c08long(t *pbt.T) {
	in, z, want := longPackage(t)
	x := in.Part(oox.DocPart)
	if len(x) > 1<<15 {
		t.NonTrivial()
	}
	for k := 0; k < 4; k++ {
		switch t.Int(0, 2) {
		case 0:
			n := t.Int(0, len(x)-1)
			if t.Bool() {
				n = min(pbt.Pick(t, 4096, 8192, 1<<15, 1<<16, 1<<17, 1<<18)+t.Int(0, 2)-1, len(x)-1)
			}
			c08one(t, in, want, oox.DocPart, x, n)
		case 1:
			cnt := &faultReader{b: z}
			if _, err := outcome(cnt, int64(len(z))); err != nil {
				t.Failf("harness", "%v", err)
			}
			r := &faultReader{b: z, once: t.Bool(), part: t.Bool(), err: pbt.Pick(t, errors.New("read failed"), io.ErrUnexpectedEOF, io.EOF)}
			r.at = t.Int(1, cnt.n)
			t.Logf("read %d of %d fails, once=%v, partly=%v: %v", r.at, cnt.n, r.once, r.part, r.err)
			out, err := outcome(r, int64(len(z)))
			if err == nil {
				sameOutcome(t, "failing reader", want, out)
			}
		default:
			zr, err := zip.NewReader(bytes.NewReader(z), int64(len(z)))
			if err != nil {
				t.Failf("harness", "%v", err)
			}
			for _, f := range zr.File {
				if f.Name != oox.DocPart {
					continue
				}
				off, err := f.DataOffset()
				if err != nil {
					t.Failf("harness", "%v", err)
				}
				b := bytes.Clone(z)
				i := int(off) + t.Int(0, int(f.CompressedSize64)-1)
				if t.Bool() { // near the end
					i = int(off) + int(f.CompressedSize64) - 1 - t.Int(0, min(40, int(f.CompressedSize64)-1))
				}
				b[i] ^= byte(t.Int(1, 255))
				t.Logf("byte %d of %d of the main document altered (stored: %v)", i-int(off), f.CompressedSize64, f.Method == zip.Store)
				out, err := outcome(bytes.NewReader(b), int64(len(b)))
				if err == nil {
					sameOutcome(t, "altered byte", want, out)
				}
			}
		}
	}
}

// c09long saves long documents to failing destinations.
func c09long(t *pbt.T) {
	_, z, _ := longPackage(t)
	d := parse(t, z)
	if t.Bool() {
		_, err := d.AddParagraph().AddInlineDrawing(docgen.ImageOf("png", 10, 10, sizedBlob(t, 1<<18)))
		t.Check("picture-refused", err)
	}
	ok := &faultWriter{limit: -1}
	if _, err := d.WriteTo(ok); err != nil {
		t.Failf("save-error", "%v", err)
	}
	ref, st := ok.buf.Bytes(), state(d)
	for k := 0; k < 6; k++ {
		w := &faultWriter{limit: -1, short: t.Bool(), once: t.Bool(), err: someFault(t)}
		if t.Bool() {
			w.limit = t.Int(0, len(ref)-1)
		} else {
			w.at = t.Int(1, ok.calls)
		}
		t.Logf("%v", w)
		c09try(t, d, ref, st, w)
	}
	data := save(t, d)
	sameParts(t, "next-save", "the next save", ref, data)
}

// c18large makes tables of very many cells.
func c18large(t *pbt.T) {
	r, c := t.Int(1, 6), pbt.Pick(t, 60, 64, 65, 128, 130, 257, 500, 1030)
	if t.Bool() {
		r, c = c, r
	}
	c18(t, r, c)
}

// c20large has templates of very many and of large files.
func c20large(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 4); n > 0; n-- {
		b.step()
	}
	name, list, m := template(t)
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	add := func(n string, data []byte) {
		if _, ok := m.files[pre+n]; !ok {
			list = append(list, n)
		}
		m.files[pre+n] = data
	}
	if t.Bool() {
		for i := t.Int(60, 1500); i > 0; i-- {
			add("more/f"+itoa(i)+".xml", []byte(itoa(i)))
		}
	} else {
		for i := t.Int(1, 3); i > 0; i-- {
			add("big"+itoa(i)+".bin", sizedBlob(t, 1<<21))
		}
	}
	t.Logf("template %q of %d files", name, len(list))
	files := map[string][]byte{}
	for k, v := range m.files {
		files[k] = v
	}
	b.d.UseTemplate(name, list, m)
	for k := 0; k < 2; k++ {
		data := save(t, b.d)
		if m.opened != m.closed {
			t.Failf("closed", "%d files of the template were opened, but %d closed", m.opened, m.closed)
		}
		left := map[string]int{}
		for s, n := range b.sums() {
			left[s] = n
		}
		wantParts(t, openZip(t, data), pre, list, files, left)
	}
	t.NonTrivial()
}
