package props

import (
	docx "github.com/fumiama/go-docx"

	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C17",
		Level: "exploration",
		Rule:  "sequences of formatting and page-size calls on the runs, link runs, paragraphs, tables, rows and cells of built documents, of parsed foreign documents and of objects without any properties; after calls the whole main document must be the former one with just the named properties replaced; non-trivial: at least three calls are made, on something that has properties already",
		Subs: []pbt.Sub{
			{Name: "built", Quick: 1500, Fn: c17built},
			{Name: "parsed", Quick: 2500, Weight: 2, Fn: c17parsed},
			{Name: "bare", Quick: 6000, Weight: 2, Fn: c17bare},
			{Name: "values", Quick: 6000, Fn: c17values},
		},
	})
}

// format makes one formatting call on anything.
func (b *B) format() {
	t := b.t
	if ts := b.tables(); len(ts) > 0 && t.Chance(1, 4) {
		b.editTable(ts[t.Int(0, len(ts)-1)])
		return
	}
	ps := b.paras()
	if len(ps) == 0 {
		b.pageSize()
		return
	}
	i := t.Int(0, len(ps)-1)
	if t.Chance(1, 3) {
		b.logf("paragraph %d", i)
		b.stylePara(ps[i])
		return
	}
	rs := b.runs(ps[i])
	if len(rs) == 0 {
		b.logf("paragraph %d", i)
		b.stylePara(ps[i])
		return
	}
	k := t.Int(0, len(rs)-1)
	b.logf("paragraph %d run %d", i, k)
	b.styleRun(rs[k])
}

// pageSize adds the section of a page-size call.
func (b *B) pageSize() {
	w, h := "11906", "16838"
	if b.t.Bool() {
		b.logf("WithA4Page")
		b.d.WithA4Page()
	} else {
		b.logf("WithA3Page")
		b.d.WithA3Page()
		w, h = "16838", "23811"
	}
	b.Items = append(b.Items, oox.E("w:sectPr").Add(oox.E("w:pgSz", "w:w", w, "w:h", h)))
}

func (b *B) formatAll(opt oox.Opt, n int) {
	t := b.t
	for i := 0; i < n; i++ {
		if t.Chance(1, 20) {
			b.pageSize()
		} else {
			b.format()
		}
		if i+1 == n || t.Chance(1, 4) {
			p := open(t, save(t, b.d))
			same(t, "formatting", "document after the calls", norm(b.Items, !opt.NoNames), p.Body(opt))
		}
	}
	if b.Styles >= 3 {
		t.NonTrivial()
	}
}

func c17built(t *pbt.T) {
	b := newB(t)
	for n := t.Int(2, 5+t.Size/8); n > 0; n-- {
		b.step()
	}
	b.formatAll(oox.Opt{Brief: true}, t.Int(1, 6+t.Size/5))
	if t.Bool() { // formatting goes on after reopening
		b.reopen("formatted document")
		b.formatAll(oox.Opt{Brief: true, NoNames: true}, t.Int(1, 6+t.Size/5))
	}
}

func c17parsed(t *pbt.T) {
	in := foreign(t, nil, false, nil)
	d := parse(t, in.Zip)
	want := open(t, save(t, d)).Body(oox.Opt{})
	b := wrapB(t, d, want)
	b.noPic = true
	b.formatAll(oox.Opt{}, t.Int(1, 6+t.Size/5))
}

// c17bare formats objects which have no properties, alone.
func c17bare(t *pbt.T) {
	d := withTemplate(docx.New())
	b := &B{t: t, d: d, ids: map[string]int{}, noPic: true, noLink: true}
	for n := t.Int(1, 3); n > 0; n-- {
		switch t.Int(0, 3) {
		case 0: // table
			d.Document.Body.Items = append(d.Document.Body.Items, &docx.Table{TableGrid: &docx.WTableGrid{}, TableRows: []*docx.WTableRow{{TableCells: []*docx.WTableCell{{}, {}}}}})
			row := oox.E("w:tr").Add(oox.E("w:trPr"), oox.E("w:tc").Add(oox.E("w:tcPr")), oox.E("w:tc").Add(oox.E("w:tcPr")))
			b.Items = append(b.Items, oox.E("w:tbl").Add(oox.E("w:tblPr"), oox.E("w:tblGrid"), row))
		default:
			p := &docx.Paragraph{}
			c := oox.E("w:p").Add(oox.E("w:pPr"))
			for k := t.Int(0, 3); k > 0; k-- {
				s := b.text()
				r := &docx.Run{Children: []interface{}{&docx.Text{Text: s}}}
				tc := oox.E("w:t")
				tc.Text = s
				rc := oox.E("w:r").Add(oox.E("w:rPr"), tc)
				p.Children = append(p.Children, r)
				c.Add(rc)
			}
			d.Document.Body.Items = append(d.Document.Body.Items, p)
			b.Items = append(b.Items, c)
		}
	}
	b.formatAll(oox.Opt{Brief: true}, t.Int(1, 4+t.Size/8))
}
