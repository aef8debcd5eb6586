package props

import (
	"strings"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C22",
		Level: "exploration",
		Rule:  "the plain text of every paragraph and table of foreign packages (against an independent reading of the input), of built documents (against the calls), and of appended, split, merged and reopened ones (against an independent reading of what they are saved as and against the model of the history); non-trivial: an item holds text and a link, drawing, tab or line break",
		Subs: []pbt.Sub{
			{Name: "parsed", Quick: 2500, Weight: 2, Fn: c22parsed},
			{Name: "paragraph", Quick: 3000, Weight: 2, Fn: c22paragraph},
			{Name: "unnamed", Quick: 800, Fn: c22unnamed},
			wideSub("wide", 200, c22wide),
			{Name: "built", Quick: 1500, Weight: 2, Fn: c22built},
			{Name: "assembled", Quick: 400, Weight: 2, Fn: c22assembled},
		},
	})
}

// telling counts items with text and something else.
func telling(t *pbt.T, items []*oox.C) {
	for _, c := range items {
		s := plainItem(c)
		special := strings.ContainsAny(s, "\t\n") || strings.Contains(s, "](")
		if special && strings.Trim(s, "\t\n |:-") != "" {
			t.NonTrivial()
		}
		if hasDrawing(c) {
			t.Label("drawing")
		}
	}
}

func c22parsed(t *pbt.T) {
	var style *docgen.Style
	if t.Bool() {
		style = docgen.RandomStyle(t)
		style.Unknown = false
	}
	in := foreign(t, style, t.Chance(1, 4), nil)
	want := open(t, in.Zip).Body(oox.Opt{Brief: true})
	telling(t, want)
	d := parse(t, in.Zip)
	checkPlain(t, "parsed document", want, d, true)
	d = parse(t, save(t, d))
	checkPlain(t, "saved and reopened document", want, d, true)
}

func c22paragraph(t *pbt.T) {
	g := docgen.New(t)
	body := docgen.El("w:body")
	for k := t.Int(1, 2); k > 0; k-- {
		body.Kids = append(body.Kids, mixedParagraph(t, g))
	}
	if t.Chance(1, 3) {
		tbl := docgen.El("w:tbl")
		for r := t.Int(1, 3); r > 0; r-- {
			tr := docgen.El("w:tr")
			for c := t.Int(1, 3); c > 0; c-- {
				tc := docgen.El("w:tc")
				for p := t.Int(0, 2); p > 0; p-- {
					tc.Kids = append(tc.Kids, mixedParagraph(t, g))
				}
				tr.Kids = append(tr.Kids, tc)
			}
			tbl.Kids = append(tbl.Kids, tr)
		}
		body.Kids = append(body.Kids, tbl)
	}
	in := g.Build(docgen.El("w:document", body), nil, false)
	want := open(t, in.Zip).Body(oox.Opt{Brief: true})
	telling(t, want)
	d := parse(t, in.Zip)
	checkPlain(t, "parsed document", want, d, true)
}

func c22built(t *pbt.T) {
	b := newB(t)
	for n := t.Int(1, 6+t.Size/4); n > 0; n-- {
		b.step()
		if t.Chance(1, 4) {
			checkPlain(t, "while building", norm(b.Items, true), b.d, true)
		}
	}
	telling(t, b.Items)
	checkPlain(t, "built document", norm(b.Items, true), b.d, true)
	for n := t.Int(0, 2); n > 0; n-- {
		want := norm(b.Items, true)
		st := plainAll(b.d)
		b.d = parse(t, save(t, b.d))
		checkPlain(t, "reopened document", want, b.d, true)
		sameStr(t, "plain-text", "plain text after reopening", st, plainAll(b.d))
	}
}

func c22assembled(t *pbt.T) {
	w := newWorld(t)
	w.wAppend, w.wSplit, w.maxItems = 6, 5, 40
	w.after = func(b *B, data []byte, p *oox.Pkg) {
		saved := p.Body(oox.Opt{Brief: true})
		checkPlain(t, "document "+b.tag+"as saved", saved, b.d, true)
		checkPlain(t, "document "+b.tag+"by its history", b.Items, b.d, false)
		if w.Appends+w.Splits > 0 {
			telling(t, saved)
		}
	}
	w.run(t.Int(2, 4+t.Size/10))
}

// c22unnamed: drawings without name are shown by one of what is inside.
func c22unnamed(t *pbt.T) {
	g := docgen.New(t)
	doc := g.Document()
	n := 0
	drop := func(x *xt.Node, name string) {
		var kids []*xt.Node
		for _, k := range x.Kids {
			if k.Local != name {
				kids = append(kids, k)
			} else {
				n++
			}
		}
		x.Kids = kids
	}
	doc.Walk(func(x *xt.Node) {
		switch x.Local {
		case "inline", "anchor":
			if t.Chance(2, 3) {
				drop(x, "docPr")
			}
		case "pic":
			if t.Bool() {
				drop(x, "nvPicPr")
			}
		case "wsp":
			if t.Chance(1, 4) {
				drop(x, "spPr")
			}
		}
	})
	in := g.Build(doc, nil, false)
	want := open(t, in.Zip).Body(oox.Opt{Brief: true})
	d := parse(t, in.Zip)
	checkPlain(t, "parsed document", want, d, true)
	d = parse(t, save(t, d))
	checkPlain(t, "saved and reopened document", want, d, true)
	if n > 0 {
		t.NonTrivial()
	}
}
