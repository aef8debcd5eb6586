package props

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// Checks with inputs far larger than those of the other generators: limits,
// buffers and windows inside the library show only here.

func large(name string, quick int, fn func(*pbt.T)) pbt.Sub {
	return pbt.Sub{Name: name, Quick: quick, Workers: 4, Timeout: 4 * time.Minute, Fn: fn}
}

// sizedBlob is a blob around a power of two or ten.
func sizedBlob(t *pbt.T, most int) []byte {
	n := pbt.Pick(t, 1<<12, 1<<15, 1<<16, 100000, 1<<17, 1<<18, 1<<19, 1000000, 1<<20, 10000000, 1<<21, 1<<22, 1<<24)
	n = min(n, most) + t.Int(0, 40) - 20
	switch t.Int(0, 3) {
	case 0:
		n += t.Int(0, n)
	case 1:
		n = n*2 + 1
	}
	return docgen.Blob(t, n)
}

func c03large(t *pbt.T) {
	in := foreign(t, nil, true, nil)
	parts := in.Parts
	total := 0
	for k := t.Int(1, 3); k > 0; k-- {
		data := sizedBlob(t, 1<<22)
		name := fmt.Sprintf("%s%d.%s", pbt.Pick(t, "word/big", "word/media/big", "customXml/big", "big", "word/media/sub/big"), k, pbt.Pick(t, "xml", "png", "bin"))
		t.Logf("part %s: %d bytes, md5 %s", name, len(data), oox.Sum(data))
		at := t.Int(0, len(parts))
		parts = append(parts[:at:at], append([]docgen.Part{{Name: name, Data: data}}, parts[at:]...)...)
		total += len(data)
	}
	z := docgen.WriteZip(parts, t.Bool(), false)
	before := open(t, z)
	d := parse(t, z)
	for round := 0; round < 2; round++ {
		data := save(t, d)
		after := open(t, data)
		samePassThrough(t, before, after, true) // types of media may be added
		sameRels(t, before, after)
		if len(after.Parts) > len(before.Parts)+1 {
			t.Failf("part-added", "%d parts became %d", len(before.Parts), len(after.Parts))
		}
		d = parse(t, data)
		d.AddParagraph().AddText("x")
	}
	if total > 1<<16 {
		t.NonTrivial()
	}
}

// c03many: very many parts.
func c03many(t *pbt.T) {
	in := foreign(t, nil, true, nil)
	parts := in.Parts
	n := t.Int(100, 3000)
	for i := 0; i < n; i++ {
		parts = append(parts, docgen.Part{Name: pbt.Pick(t, "word/media/m", "word/p", "x/y") + itoa(i) + pbt.Pick(t, ".png", ".bin"), Data: []byte(itoa(i * 7))})
	}
	t.Logf("%d further parts", n)
	z := docgen.WriteZip(parts, t.Bool(), false)
	before := open(t, z)
	after := open(t, save(t, parse(t, z)))
	samePassThrough(t, before, after, true) // types of media may be added
	sameRels(t, before, after)
	t.NonTrivial()
}

func c05large(t *pbt.T) {
	d := withTemplate(docx.New())
	p := d.AddParagraph()
	want := ""
	total := 0
	for k := t.Int(1, 2); k > 0; k-- {
		unit := c05string(t)
		if unit == "" {
			unit = "x "
		}
		s := unit
		if t.Bool() { // one text of very many characters
			s = strings.Map(func(r rune) rune {
				if r == '\n' || r == '\t' {
					return '_'
				}
				return r
			}, s)
		}
		n := pbt.Pick(t, 5000, 1<<15, 1<<16, 1<<17, 1<<20)
		if strings.ContainsAny(s, "\n\t") {
			n = min(n, 1<<16)
		}
		s = strings.Repeat(s, n/len(s)+1) + pbt.Pick(t, "", " ", "z", "\t", "\n")
		t.Logf("AddText of %d bytes, repeating %q", len(s), unit)
		p.AddText(s)
		want += s
		total += len(s)
	}
	if g := p.String(); g != want {
		t.Failf("plain", "the plain text has %d bytes, expected %d: %s", len(g), len(want), oox.DiffText(want, g))
	}
	data := save(t, d)
	o := open(t, data)
	var sb strings.Builder
	strictText(o.Doc.Child(oox.W, "body"), &sb)
	if g := sb.String(); g != want {
		t.Failf("reader", "an independent reader sees %d bytes, expected %d: %s", len(g), len(want), oox.DiffText(want, g))
	}
	if g := allText(parse(t, data)); g != want {
		t.Failf("reopened", "after reopening the plain text has %d bytes, expected %d: %s", len(g), len(want), oox.DiffText(want, g))
	}
	if total > 10000 {
		t.NonTrivial()
	}
}

func allText(d *docx.Docx) string {
	var sb strings.Builder
	for _, it := range d.Document.Body.Items {
		sb.WriteString(stringItem(it))
	}
	return sb.String()
}

func c10large(t *pbt.T) {
	d := withTemplate(docx.New())
	p := d.AddParagraph()
	var want []string
	n := t.Int(1, 3)
	most := 1 << 22
	if t.Bool() {
		n, most = t.Int(100, 1200), 1<<12
	}
	for i := 0; i < n; i++ {
		tail := []byte(itoa(i))
		if most > 1<<12 {
			tail = sizedBlob(t, most)
		}
		data := docgen.ImageOf(pbt.Pick(t, docgen.Formats...), 10+i%7, 10, tail)
		var err error
		if t.Bool() {
			_, err = p.AddInlineDrawing(data)
		} else {
			_, err = p.AddAnchorDrawing(data)
		}
		t.Check("picture-refused", err)
		want = append(want, oox.Sum(data))
		if i%100 == 99 {
			p = d.AddParagraph()
		}
	}
	t.Logf("%d pictures", n)
	out := save(t, d)
	sameStr(t, "pictures", "pictures in order", join(want), join(pictureSums(open(t, out).Body(oox.Opt{Brief: true}))))
	d2 := parse(t, out)
	sameStr(t, "memory", "pictures in memory after reopening", join(want), join(memoryPictures(t, d2)))
	dst := withTemplate(docx.New())
	dst.AppendFile(d2)
	if t.Bool() {
		dst.AppendFile(d)
		want = append(want, want...)
	}
	sameStr(t, "memory", "pictures in memory after appending", join(want), join(memoryPictures(t, dst)))
	sameStr(t, "pictures", "pictures after appending", join(want), join(pictureSums(open(t, save(t, dst)).Body(oox.Opt{Brief: true}))))
	t.NonTrivial()
}

func c11large(t *pbt.T) {
	d := withTemplate(docx.New())
	n := t.Int(300, 2500)
	kind := t.Int(0, 4)
	if kind == 4 {
		n = t.Int(1, 30)
	}
	var want []string
	for i := 0; i < n; i++ {
		u := "http://x/" + itoa(i)
		switch kind {
		case 1:
			u = "http://x/" + itoa(i/2)
		case 2:
			u = "#b" + itoa(i)
		case 3:
			u = "http://x/" + strings.Repeat("y", i%700) + itoa(i)
		case 4:
			u = "http://x/" + strings.Repeat("y", pbt.Pick(t, 240, 1000, 2040, 4080, 32760, 70000)+t.Int(0, 20)) + itoa(i)
		}
		want = append(want, u)
		d.AddParagraph().AddLink("c"+itoa(i), u)
	}
	t.Logf("%d links of kind %d", n, kind)
	targets := func(l []*oox.C) (out []string) {
		for _, c := range l {
			for _, k := range c.Kids {
				if k.Name == "w:hyperlink" {
					x := k.At["link"]
					if i := strings.IndexByte(x, '|'); i >= 0 {
						x = x[i+1:]
					}
					out = append(out, x)
				}
			}
		}
		return
	}
	out := save(t, d)
	sameStr(t, "links", "targets in order", join(want), join(targets(open(t, out).Body(oox.Opt{Brief: true}))))
	d2 := parse(t, out)
	dst := withTemplate(docx.New())
	dst.AppendFile(d2)
	if t.Bool() {
		dst.AppendFile(d)
		want = append(want, want...)
	}
	p := open(t, save(t, dst))
	sameStr(t, "links", "targets after appending", join(want), join(targets(p.Body(oox.Opt{Brief: true}))))
	for k := 0; k < 20; k++ {
		r := p.Rels[t.Int(0, len(p.Rels)-1)]
		if x, err := dst.ReferTarget(r.ID); err != nil || x != r.Target {
			t.Failf("refer-target", "ReferTarget(%q) = %q, %v; saved target is %q", r.ID, x, err, r.Target)
		}
	}
	t.NonTrivial()
}

// bigBody is a body of very many blocks.
func bigBody(t *pbt.T) (*docgen.G, *xt.Node) {
	g := docgen.New(t)
	doc := g.Document()
	body := doc.Elems()[0]
	var kinds []*xt.Node
	for k := t.Int(1, 5); k > 0; k-- {
		if t.Chance(1, 4) {
			kinds = append(kinds, g.Table())
		} else {
			kinds = append(kinds, g.Paragraph())
		}
	}
	n := pbt.Pick(t, 130, 260, 520, 1030, 2000) + t.Int(0, 9)
	weight := 0
	for _, k := range kinds {
		k.Walk(func(*xt.Node) { weight++ })
	}
	n = max(20, min(n, 60000*len(kinds)/weight))
	var many []*xt.Node
	for i := 0; i < n; i++ {
		many = append(many, kinds[i%len(kinds)])
	}
	body.Kids = append(many, body.Kids...)
	t.Logf("%d blocks before the others", n)
	return g, doc
}

func c02large(t *pbt.T) {
	g, doc := bigBody(t)
	in := g.Build(doc, nil, false)
	src := open(t, in.Zip)
	p := open(t, save(t, parse(t, in.Zip)))
	same(t, "content", "parsed and saved document", src.Body(oox.Opt{}), p.Body(oox.Opt{}))
	t.NonTrivial()
}

func c12large(t *pbt.T) {
	g, doc := bigBody(t)
	in := g.Build(doc, nil, false)
	src := parse(t, in.Zip)
	sp := open(t, save(t, src))
	w := newWorld(t)
	dst := fill(w.add(), 4)
	_, dp := w.check(dst)
	want := full(dp)
	n := t.Int(1, 4)
	for k := 0; k < n; k++ {
		dst.d.AppendFile(src)
		want = append(want, full(sp)...)
	}
	t.Logf("appended %d times", n)
	same(t, "appended", "after appending", want, full(open(t, save(t, dst.d))))
	t.NonTrivial()
}

// c12chain appends very many documents.
func c12chain(t *pbt.T) {
	w := newWorld(t)
	src := fill(w.add(), 4)
	dst := fill(w.add(), 2)
	_, sp := w.check(src)
	_, dp := w.check(dst)
	want := full(dp)
	one := full(sp)
	weight := len(join([]string{oox.Strings(one)}))
	n := max(3, min(t.Int(50, 600), 3000000/(weight+1)))
	for k := 0; k < n; k++ {
		dst.d.AppendFile(src.d)
		want = append(want, one...)
	}
	t.Logf("appended %d times", n)
	same(t, "appended", "after appending", want, full(open(t, save(t, dst.d))))
	t.NonTrivial()
}

// c13large splits a long document into very many pieces.
func c13large(t *pbt.T) {
	g := docgen.New(t)
	g.NoTable = true
	body := docgen.El("w:body")
	n := t.Int(100, 700)
	var kinds []*xt.Node
	for k := t.Int(1, 4); k > 0; k-- {
		kinds = append(kinds, g.Paragraph())
	}
	for i := 0; i < n; i++ {
		body.Kids = append(body.Kids, kinds[i%len(kinds)])
	}
	in := g.Build(docgen.El("w:document", body), nil, false)
	d := parse(t, in.Zip)
	before := save(t, d)
	whole := full(open(t, before))
	every := 1
	switch t.Weighted(2, 2, 1) {
	case 1:
		every = t.Int(2, 40)
	case 2:
		every = t.Int(50, 400)
	}
	i := -1
	at := map[*docx.Paragraph]int{}
	for k, it := range d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok {
			at[p] = k
		}
	}
	docs := d.SplitByParagraph(func(p *docx.Paragraph) bool { i = at[p]; return i%every == 0 })
	if want := (n + every - 1) / every; len(docs) != want {
		t.Failf("pieces", "%d pieces of %d paragraphs at every %dth, expected %d", len(docs), n, every, want)
	}
	var got []*oox.C
	for k, x := range docs {
		l := full(open(t, save(t, x)))
		if k < len(docs)-1 && len(l) != every || len(l) == 0 {
			t.Failf("pieces", "piece %d has %d paragraphs, expected %d", k, len(l), every)
		}
		got = append(got, l...)
	}
	same(t, "piece", "all pieces", whole, got)
	if !bytes.Equal(openZip(t, before).Parts[oox.DocPart], openZip(t, save(t, d)).Parts[oox.DocPart]) {
		t.Failf("source-changed", "the split document is changed")
	}
	if len(docs) > 1 {
		t.NonTrivial()
	}
}

// c14large merges paragraphs of very many runs.
func c14large(t *pbt.T) {
	d := withTemplate(docx.New())
	p := d.AddParagraph()
	n := t.Int(500, 8000)
	var sb strings.Builder
	period := t.Int(1, 9)
	for i := 0; i < n; i++ {
		s := itoa(i) + pbt.Pick(t, "", " ", "\t", "\n")
		r := p.AddText(s)
		if i%period == 0 {
			r.Bold()
		}
		sb.WriteString(s)
	}
	t.Logf("%d runs, every %dth bold", n, period)
	rule := docx.MergeAllRuns
	if t.Bool() {
		rule = docx.MergeSamePropRuns
	}
	m := p.MergeText(rule)
	if g := m.String(); g != sb.String() {
		t.Failf("text", "the merged text has %d bytes, expected %d: %s", len(g), sb.Len(), oox.DiffText(sb.String(), g))
	}
	if g := p.String(); g != sb.String() {
		t.Failf("source", "the text of the source is changed: %s", oox.DiffText(sb.String(), g))
	}
	t.NonTrivial()
}
