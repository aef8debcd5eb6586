package props

import (
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C05",
		Level: "exploration",
		Rule:  "random strings of legal characters (biased to markup, blanks, line ends, tabs, supplementary characters) are added to paragraphs, cells and links; non-trivial: a string has a character other than letters and inner blanks",
		Assumptions: []string{
			"the independent reader drops leading and trailing blanks of a w:t without xml:space=\"preserve\"; captions of links are field instructions, for which only the library's own reading is judged",
		},
		Subs: []pbt.Sub{
			{Name: "text", Quick: 6000, Weight: 2, Fn: c05text},
			{Name: "places", Quick: 2000, Fn: c05places},
			large("large", 60, c05large),
		},
	})
}

// strictText is what an independent reader sees in a run or paragraph.
func strictText(n *xt.Node, sb *strings.Builder) {
	for _, e := range n.Elems() {
		if e.NS != oox.W {
			continue
		}
		switch e.Local {
		case "t":
			s := e.Content()
			if v, _ := e.Attr(xt.XMLNS, "space"); v != "preserve" {
				s = strings.Trim(s, " \t\r\n")
			}
			// a line end or tab in a text element is not shown as such
			sb.WriteString(strings.NewReplacer("\n", "<LF in text>", "\t", "<TAB in text>").Replace(s))
		case "tab":
			sb.WriteByte('\t')
		case "br", "cr":
			sb.WriteByte('\n')
		case "rPr", "pPr":
		default:
			strictText(e, sb)
		}
	}
}

func special(s string) bool {
	for i, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == ' ' && i > 0 && i < len(s)-1 {
			continue
		}
		return true
	}
	return false
}

func c05string(t *pbt.T) string {
	switch t.Weighted(6, 1, 1, 1) {
	case 1:
		return pbt.Pick(t, "", "\t", "\n", " ", "\r", "\r\n", "\n\n", "\t\t", " \t ", "\u00a0", "\u3000x", "x\u2028", "\u0085", "]]>", "&#10;", "<w:t>", "&lt;", "_x000D_")
	case 2:
		return strings.Repeat(pbt.Pick(t, "ab ", "\t", "\n", "é", "😀", " "), t.Int(1, 300))
	case 3:
		return string(docgen.Rune(t))
	}
	return docgen.String(t, 16)
}

func c05text(t *pbt.T) {
	d := withTemplate(docx.New())
	p := d.AddParagraph()
	want := ""
	n := t.Int(1, 6)
	for i := 0; i < n; i++ {
		s := c05string(t)
		if special(s) {
			t.NonTrivial()
		}
		t.Logf("AddText(%q)", s)
		r := p.AddText(s)
		if t.Chance(1, 4) {
			r.Bold()
		}
		if g := p.String(); g != want+s {
			t.Failf("plain", "after AddText(%q) the plain text is %q, expected %q", s, g, want+s)
		}
		want += s
	}
	rounds := t.Int(1, 3)
	for k := 1; k <= rounds; k++ {
		data := save(t, d)
		o := open(t, data)
		var sb strings.Builder
		body := o.Doc.Child(oox.W, "body")
		if body == nil || len(body.Elems()) != 1 {
			t.Failf("body", "the saved body does not hold one paragraph")
		}
		strictText(body.Elems()[0], &sb)
		sameStr(t, "reader", "text seen by an independent reader", want, sb.String())
		d = parse(t, data)
		if len(d.Document.Body.Items) != 1 {
			t.Failf("items", "%d items after reopening", len(d.Document.Body.Items))
		}
		p, ok := d.Document.Body.Items[0].(*docx.Paragraph)
		if !ok {
			t.Failf("items", "item is %T", d.Document.Body.Items[0])
		}
		sameStr(t, "reopened", "plain text after reopening", want, p.String())
		if k < rounds {
			s := c05string(t)
			t.Logf("reopened; AddText(%q)", s)
			p.AddText(s)
			want += s
			sameStr(t, "plain", "plain text after adding to a reopened paragraph", want, p.String())
		}
	}
}

// c05places puts text into several paragraphs, cells and captions.
func c05places(t *pbt.T) {
	d := withTemplate(docx.New())
	type place struct {
		p    *docx.Paragraph
		want string
	}
	var ps []*place
	rows, cols := t.Int(0, 3), t.Int(1, 3)
	for i := t.Int(1, 4); i > 0; i-- {
		ps = append(ps, &place{p: d.AddParagraph()})
	}
	if rows > 0 {
		tb := d.AddTable(rows, cols, 0, nil)
		for _, r := range tb.TableRows {
			for _, c := range r.TableCells {
				for k := t.Int(1, 2); k > 0; k-- {
					ps = append(ps, &place{p: c.AddParagraph()})
				}
			}
		}
	}
	for i := t.Int(1, 12); i > 0; i-- {
		k := t.Int(0, len(ps)-1)
		x := ps[k]
		s := c05string(t)
		if special(s) {
			t.NonTrivial()
		}
		if t.Chance(1, 3) {
			t.Logf("%d: AddLink(%q)", k, s)
			x.p.AddLink(s, "http://x")
			x.want += "[" + s + "](http://x)"
		} else {
			t.Logf("%d: AddText(%q)", k, s)
			x.p.AddText(s)
			x.want += s
		}
	}
	rounds := t.Int(1, 2)
	for k := 0; ; k++ {
		for i, x := range ps {
			if g := x.p.String(); g != x.want {
				t.Failf("plain", "round %d paragraph %d: expected %q, got %q", k, i, x.want, g)
			}
		}
		if k == rounds {
			return
		}
		d = parse(t, save(t, d))
		var got []*docx.Paragraph
		for _, it := range d.Document.Body.Items {
			switch o := it.(type) {
			case *docx.Paragraph:
				got = append(got, o)
			case *docx.Table:
				for _, r := range o.TableRows {
					for _, c := range r.TableCells {
						got = append(got, c.Paragraphs...)
					}
				}
			}
		}
		if len(got) != len(ps) {
			t.Failf("items", "%d paragraphs after reopening, expected %d", len(got), len(ps))
		}
		for i, p := range got {
			ps[i].p = p
		}
	}
}
