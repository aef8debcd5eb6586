package props

import (
	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C27",
		Level: "exploration",
		Rule:  "documents built by random calls, foreign documents parsed and saved, and histories of appending, splitting and merging; their saved main documents are read by an independent reader and judged by a table of the format's content models; non-trivial: the document has at least two of runs with several properties, tables, drawings",
		Assumptions: []string{
			"the place of section properties within the body and cells without paragraph are what the caller made them and are not judged",
			"what must be there is judged for documents built through the API only, since parsed ones may lack it from the beginning",
		},
		Subs: []pbt.Sub{
			{Name: "built", Quick: 1500, Weight: 2, Fn: c27built},
			{Name: "parsed", Quick: 1500, Weight: 2, Fn: c27parsed},
			{Name: "assembled", Quick: 300, Weight: 2, Fn: c27assembled},
		},
	})
}

func schemaOf(t *pbt.T, what string, p *oox.Pkg, strict bool) {
	if err := p.Schema(strict); err != nil {
		t.Failf("schema", "%s: %v", what, err)
	}
}

func schemaTelling(t *pbt.T, p *oox.Pkg) {
	n := 0
	rich, tbl, dr := false, false, false
	var walk func(c *oox.C)
	walk = func(c *oox.C) {
		switch c.Name {
		case "w:rPr", "w:pPr":
			rich = rich || len(c.Kids) > 1
		case "w:tbl":
			tbl = true
		case "drawing":
			dr = true
		}
		for _, k := range c.Kids {
			walk(k)
		}
	}
	for _, c := range p.Body(oox.Opt{Brief: true}) {
		walk(c)
	}
	for name, b := range map[string]bool{"properties": rich, "table": tbl, "drawing": dr} {
		if b {
			n++
			t.Label(name)
		}
	}
	if n >= 2 {
		t.NonTrivial()
	}
}

func c27built(t *pbt.T) {
	b := newB(t)
	for n := t.Int(1, 10+t.Size/4); n > 0; n-- {
		b.step()
	}
	p := open(t, save(t, b.d))
	schemaTelling(t, p)
	schemaOf(t, "built document", p, true)
	b.d = parse(t, save(t, b.d))
	for n := t.Int(0, 5); n > 0; n-- {
		b.step()
	}
	schemaOf(t, "reopened document", open(t, save(t, b.d)), true)
}

func c27parsed(t *pbt.T) {
	g := docgen.New(t)
	in := g.Build(g.Document(), nil, false)
	p := open(t, save(t, parse(t, in.Zip)))
	schemaTelling(t, p)
	schemaOf(t, "parsed and saved document", p, false)
}

func c27assembled(t *pbt.T) {
	w := newWorld(t)
	w.wAppend, w.wSplit, w.wMerge, w.maxItems = 5, 3, 3, 40
	w.after = func(b *B, data []byte, p *oox.Pkg) {
		schemaOf(t, "document "+b.tag, p, false)
		if w.Appends+w.Splits+w.Merges > 0 {
			schemaTelling(t, p)
		}
	}
	w.run(t.Int(2, 4+t.Size/10))
}
