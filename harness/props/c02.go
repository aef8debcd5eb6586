package props

import (
	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C02",
		Level: "exploration",
		Rule:  "a main document over the modelled vocabulary, made at random, parsed and saved twice; non-trivial: it holds at least three of formatting, links, tables, drawings, section properties",
		Assumptions: []string{
			"the vocabulary is the one of harness/docgen; numbers which the library writes only if they are not zero are generated non-zero (finding K1), links hold one run (K2)",
			"toggles are compared by meaning (absent value, on, true and 1 are equal), other attributes by value",
		},
		Subs: []pbt.Sub{
			{Name: "document", Quick: 2500, Weight: 2, Fn: func(t *pbt.T) { c02(t, nil, nil) }},
			{Name: "drawing", Quick: 2500, Weight: 2, Fn: func(t *pbt.T) {
				c02(t, nil, func(g *docgen.G) *xt.Node {
					r := docgen.El("w:r")
					for k := 0; k == 0 || t.More(k, 3, 1); k++ {
						r.Kids = append(r.Kids, g.DrawingIn())
					}
					return docgen.El("w:document", docgen.El("w:body", docgen.El("w:p", r)))
				})
			}},
			{Name: "formatting", Quick: 2500, Fn: func(t *pbt.T) {
				c02(t, func(g *docgen.G) { g.NoDrawing = true }, func(g *docgen.G) *xt.Node {
					p := docgen.El("w:p", g.PPr())
					for k := 0; k == 0 || t.More(k, 4, 1); k++ {
						r := docgen.El("w:r", g.RPr(), g.Text())
						p.Kids = append(p.Kids, r)
					}
					return docgen.El("w:document", docgen.El("w:body", p, g.SectPr()))
				})
			}},
			{Name: "table", Quick: 1200, Fn: func(t *pbt.T) {
				c02(t, nil, func(g *docgen.G) *xt.Node {
					return docgen.El("w:document", docgen.El("w:body", g.Table(), g.Paragraph(), g.Table()))
				})
			}},
			large("large", 30, c02large),
			wideSub("wide", 150, c02wide),
		},
		Known: []pbt.Known{knownK1("C02"), knownK2},
	})
}

func c02(t *pbt.T, tune func(*docgen.G), mk func(*docgen.G) *xt.Node) {
	g := docgen.New(t)
	if tune != nil {
		tune(g)
	}
	if mk == nil {
		mk = (*docgen.G).Document
	}
	in := g.Build(mk(g), nil, false)
	src := open(t, in.Zip)
	want := src.Body(oox.Opt{})
	d := parse(t, in.Zip)
	out := save(t, d)
	p := open(t, out)
	same(t, "content", "parsed and saved document", want, p.Body(oox.Opt{}))
	if a, b := src.ZeroXfrms(), p.ZeroXfrms(); b > a {
		t.Failf("xfrm", "the document had %d transformations of zero size, the saved one has %d", a, b)
	}
	d2 := parse(t, out)
	p2 := open(t, save(t, d2))
	same(t, "second", "parsed and saved again", p.Body(oox.Opt{}), p2.Body(oox.Opt{}))
	n := 0
	for _, f := range []string{"rPr", "pPr", "hyperlink", "table", "pic", "shape", "sectPr", "canvas", "group"} {
		if g.Feat[f] {
			n++
			t.Label(f)
		}
	}
	if n >= 3 {
		t.NonTrivial()
	}
}
