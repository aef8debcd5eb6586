package props

import (
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C07",
		Level: "exploration",
		Rule:  "the same main document is spelled plainly and with content-free variations (comments, processing instructions, blanks, unknown elements and attributes, references, CDATA, prefixes, places of declarations, expanded empty elements); both are read and saved and must agree with each other and with the canonical form of the source; non-trivial: at least two kinds of variation and three kinds of content",
		Assumptions: []string{
			"unknown elements may hold anything, also names the library knows; they are put everywhere but inside text elements",
		},
		Subs: []pbt.Sub{
			{Name: "document", Quick: 2500, Weight: 2, Fn: func(t *pbt.T) { c07(t, nil) }},
			{Name: "drawing", Quick: 2500, Weight: 2, Fn: func(t *pbt.T) {
				c07(t, func(g *docgen.G) *xt.Node {
					r := docgen.El("w:r")
					for k := 0; k == 0 || t.More(k, 3, 1); k++ {
						r.Kids = append(r.Kids, g.DrawingIn())
					}
					return docgen.El("w:document", docgen.El("w:body", docgen.El("w:p", r)))
				})
			}},
			{Name: "table", Quick: 1000, Fn: func(t *pbt.T) {
				c07(t, func(g *docgen.G) *xt.Node {
					return docgen.El("w:document", docgen.El("w:body", g.Table(), g.Paragraph(), g.SectPr()))
				})
			}},
			{Name: "one", Quick: 3000, Fn: c07one},
			{Name: "choice", Quick: 1500, Fn: c07choice},
			wideSub("wide", 80, c07wide),
		},
	})
}

// respell replaces the main document of a package.
func respell(p *docgen.Package, doc, rels []byte) []byte {
	parts := append([]docgen.Part(nil), p.Parts...)
	for i := range parts {
		switch {
		case parts[i].Name == oox.DocPart && doc != nil:
			parts[i].Data = doc
		case parts[i].Name == oox.RelsPart && rels != nil:
			parts[i].Data = rels
		}
	}
	return docgen.WriteZip(parts, false, false)
}

func plainAll(d *docx.Docx) string {
	var sb strings.Builder
	for i, it := range d.Document.Body.Items {
		fmt.Fprintf(&sb, "%d %s %s\n", i, kindItem(it), stringItem(it))
	}
	return sb.String()
}

// relsStyled spells relationships with variations.
func relsStyled(t *pbt.T, rels []oox.Rel) []byte {
	s := string(docgen.RelsXML(rels))
	switch t.Int(0, 4) {
	case 1:
		s = strings.ReplaceAll(s, "/><", "></Relationship>\n  <!-- c --><")
		s = strings.ReplaceAll(s, "/></Relationships>", "> </Relationship></Relationships>")
	case 2:
		s = strings.ReplaceAll(s, "<Relationship ", "<?pi?><Relationship xmlns:u=\"urn:u\" u:more=\"1\" ")
	case 3:
		s = strings.ReplaceAll(s, "<Relationship ", "<rel:Relationship ")
		s = strings.ReplaceAll(s, "<Relationships xmlns=", "<rel:Relationships xmlns:rel=")
		s = strings.ReplaceAll(s, "</Relationships", "</rel:Relationships")
	case 4:
		in := "<y/>text"
		if t.Bool() { // no relationship of the document
			in = `<q:Relationship xmlns:q="` + oox.REL + `" Id="` + pbt.Pick(t, "rId1", "rId2", "rId777", "x") + `" Type="urn:t" Target="media/other.png">1</q:Relationship>`
		}
		s = strings.ReplaceAll(s, "<Relationship ", "<x xmlns=\"urn:x\">"+in+"</x><Relationship ")
		if t.Bool() {
			s = "\ufeff" + s
		}
	}
	return []byte(s)
}

// compareSpelled reads both spellings and compares what comes of them.
func compareSpelled(t *pbt.T, plain, styled []byte) {
	src := open(t, plain)
	alt := open(t, styled)
	_ = alt
	d1 := parse(t, plain)
	d2, err := docx.Parse(strings.NewReader(string(styled)), int64(len(styled)))
	if err != nil {
		t.Failf("parse-error", "the other spelling is refused: %v", err)
	}
	sameStr(t, "plain-text", "plain text of the other spelling", plainAll(d1), plainAll(d2))
	p1, p2 := open(t, save(t, d1)), open(t, save(t, d2))
	if root, err := xt.Parse(p2.Parts[oox.RelsPart]); err != nil || root.NS != oox.REL {
		t.Failf("rels", "the relationships of the other spelling are saved in the namespace %q (%v)", root.NS, err)
	}
	same(t, "content", "the other spelling, saved", p1.Body(oox.Opt{}), p2.Body(oox.Opt{}))
	same(t, "source", "the other spelling compared with its source", src.Body(oox.Opt{}), p2.Body(oox.Opt{}))
}

func styleKinds(s *docgen.Style) (n int) {
	for _, b := range []bool{s.DeclAtUse, s.AltPrefix, s.DefaultNS, s.SelfClose != 0, s.Blanks, s.Comments, s.PIs, s.Unknown, s.Refs, s.CData} {
		if b {
			n++
		}
	}
	return
}

func c07(t *pbt.T, mk func(*docgen.G) *xt.Node) {
	g := docgen.New(t)
	if mk == nil {
		mk = (*docgen.G).Document
	}
	in := g.Build(mk(g), nil, false)
	st := docgen.RandomStyle(t)
	doc := st.Marshal(in.Doc)
	rels := relsStyled(t, g.Rels)
	t.Logf("style %s\nother spelling: %s\nrels: %s", st, doc, rels)
	compareSpelled(t, in.Zip, respell(in, doc, rels))
	if styleKinds(st) >= 2 && len(g.Feat) >= 3 {
		t.NonTrivial()
	}
}

// c07one applies just one variation to a small document, so that each place gets each.
func c07one(t *pbt.T) {
	g := docgen.New(t)
	var doc *xt.Node
	switch t.Int(0, 3) {
	case 0:
		doc = docgen.El("w:document", docgen.El("w:body", docgen.El("w:p", g.PPr(), docgen.El("w:r", g.RPr(), g.Text()))))
	case 1:
		doc = docgen.El("w:document", docgen.El("w:body", docgen.El("w:p", g.Hyperlink()), g.SectPr()))
	case 2:
		doc = docgen.El("w:document", docgen.El("w:body", g.Table()))
	default:
		doc = docgen.El("w:document", docgen.El("w:body", docgen.El("w:p", docgen.El("w:r", g.Drawing(t.Int(0, 3))))))
	}
	in := g.Build(doc, nil, false)
	st := &docgen.Style{T: t}
	switch t.Int(0, 9) {
	case 0:
		st.Comments = true
	case 1:
		st.PIs = true
	case 2:
		st.Blanks = true
	case 3:
		st.Unknown = true
	case 4:
		st.Refs = true
	case 5:
		st.CData = true
	case 6:
		st.AltPrefix = true
	case 7:
		st.DeclAtUse = true
	case 8:
		st.DefaultNS = true
	default:
		st.SelfClose = 1
	}
	out := st.Marshal(in.Doc)
	t.Logf("style %s\nother spelling: %s", st, out)
	compareSpelled(t, in.Zip, respell(in, out, nil))
	t.NonTrivial()
}

// c07choice wraps the drawings of a document.
func c07choice(t *pbt.T) {
	g := docgen.New(t)
	p := docgen.El("w:p")
	type slot struct {
		r *xt.Node
		i int
	}
	var slots []slot
	for k := 0; k == 0 || t.More(k, 4, 2); k++ {
		r := docgen.El("w:r")
		for j := 0; j == 0 || t.More(j, 4, 1); j++ {
			switch t.Int(0, 2) {
			case 1:
				r.Kids = append(r.Kids, g.Text())
			case 2:
				r.Kids = append(r.Kids, docgen.El("w:tab"))
			default:
				slots = append(slots, slot{r, len(r.Kids)})
				r.Kids = append(r.Kids, g.Drawing(t.Int(0, 3)))
			}
		}
		if t.Chance(1, 5) && !g.NoLink {
			h := g.Hyperlink()
			h.Kids = []*xt.Node{r}
			p.Kids = append(p.Kids, h)
			continue
		}
		p.Kids = append(p.Kids, r)
	}
	in := g.Build(docgen.El("w:document", docgen.El("w:body", p)), nil, false)
	for _, s := range slots {
		if t.Chance(1, 4) {
			continue
		}
		d := s.r.Kids[s.i]
		ac := docgen.El("mc:AlternateContent")
		rq := pbt.Pick(t, "wps", "wpc", "wpg")
		if t.Chance(1, 6) { // a choice which is not supported comes first
			ac.Kids = append(ac.Kids, docgen.El("mc:Choice", "Requires", "wp14", docgen.El("w:t")))
		}
		ac.Kids = append(ac.Kids, docgen.El("mc:Choice", "Requires", rq, d))
		if t.Chance(1, 6) {
			ac.Kids = append(ac.Kids, docgen.El("mc:Choice", "Requires", pbt.Pick(t, "wp14", "wps", "w16se"), docgen.El("w:drawing")))
		}
		if t.Bool() {
			fb := docgen.El("mc:Fallback")
			switch t.Int(0, 2) {
			case 0:
				fb.Kids = append(fb.Kids, docgen.El("w:pict"))
			case 1:
				x := docgen.El("w:t")
				x.Kids = append(x.Kids, &xt.Node{Text: "fallback"})
				fb.Kids = append(fb.Kids, x)
			default:
				fb.Kids = append(fb.Kids, docgen.El("w:drawing"))
			}
			ac.Kids = append(ac.Kids, fb)
		}
		s.r.Kids[s.i] = ac
		t.NonTrivial()
	}
	st := &docgen.Style{}
	if t.Bool() {
		st = docgen.RandomStyle(t)
	}
	out := st.Marshal(in.Doc)
	t.Logf("wrapped: %s", out)
	compareSpelled(t, in.Zip, respell(in, out, nil))
}
