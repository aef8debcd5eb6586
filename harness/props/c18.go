package props

import (
	"strconv"

	docx "github.com/fumiama/go-docx"

	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C18",
		Level: "exploration",
		Rule:  "tables created by row and column counts or by lists of heights and widths, some of them zero or negative, with or without border colours, filled cell by cell, before and after reopening; non-trivial: a table has at least two rows and two columns and at least two of its cells are filled",
		Subs: []pbt.Sub{
			{Name: "tables", Quick: 3000, Weight: 2, Fn: func(t *pbt.T) { c18(t, 3+t.Size/12, 3+t.Size/12) }},
			{Name: "large", Quick: 40, Fn: func(t *pbt.T) { c18(t, 70, 40) }},
			wideSub("larger", 30, c18large),
		},
	})
}

// newTable makes a table with its model, cells are empty.
func (b *B) newTable(maxr, maxc int, bc *docx.APITableBorderColors, want map[string]string) {
	t := b.t
	width := int64(pbt.Pick(t, 0, -1, 1, 5000, t.Int(1, 1<<30)))
	tb := oox.E("w:tbl")
	var lt *docx.Table
	if t.Bool() {
		rows, cols := t.Int(0, maxr), t.Int(0, maxc)
		b.logf("AddTable(%d,%d,%d,%+v)", rows, cols, width, bc)
		lt = b.d.AddTable(rows, cols, width, bc)
		tb.Add(tblPrModel(width, want), oox.E("w:tblGrid"))
		for i := 0; i < rows; i++ {
			tr := oox.E("w:tr").Add(oox.E("w:trPr"))
			for j := 0; j < cols; j++ {
				tr.Add(oox.E("w:tc").Add(oox.E("w:tcPr").Add(oox.E("w:tcW", "w:type", "auto", "w:w", "0"))))
			}
			tb.Add(tr)
		}
	} else {
		measure := func(n int) (l []int64) {
			for k := t.Int(0, n); k > 0; k-- {
				l = append(l, int64(pbt.Pick(t, 0, -5, 1, 31680, 1<<40, t.Int(1, 9999), t.Int(1, 9999), t.Int(1, 9999))))
			}
			return
		}
		hs, ws := measure(maxr), measure(maxc)
		b.logf("AddTableTwips(%v,%v,%d,%+v)", hs, ws, width, bc)
		lt = b.d.AddTableTwips(append([]int64(nil), hs...), append([]int64(nil), ws...), width, bc)
		gr := oox.E("w:tblGrid")
		for _, w := range ws {
			if w > 0 {
				gr.Add(oox.E("w:gridCol", "w:w", strconv.FormatInt(w, 10)))
			}
		}
		tb.Add(tblPrModel(width, want), gr)
		for _, h := range hs {
			pr := oox.E("w:trPr")
			if h > 0 {
				pr.Add(oox.E("w:trHeight", "w:val", strconv.FormatInt(h, 10)))
			}
			tr := oox.E("w:tr").Add(pr)
			for _, w := range ws {
				tr.Add(oox.E("w:tc").Add(oox.E("w:tcPr").Add(oox.E("w:tcW", "w:type", "dxa", "w:w", strconv.FormatInt(w, 10)))))
			}
			tb.Add(tr)
		}
	}
	if len(lt.TableRows) != len(tb.Kids)-2 {
		t.Failf("table-shape", "the table has %d rows, expected %d", len(lt.TableRows), len(tb.Kids)-2)
	}
	b.Items = append(b.Items, tb)
}

// fillCell adds to one cell.
func (b *B) fillCell(i int) bool {
	t := b.t
	tb, tc := b.item(i).(*docx.Table), b.Items[i]
	if len(tc.Kids) < 3 || len(tc.Kids[2].Kids) < 2 {
		return false
	}
	r := t.Int(0, len(tc.Kids)-3)
	rc := tc.Kids[r+2]
	k := t.Int(0, len(rc.Kids)-2)
	if r >= len(tb.TableRows) || k >= len(tb.TableRows[r].TableCells) {
		t.Failf("table-shape", "there is no cell %d,%d", r, k)
	}
	cell, cc := tb.TableRows[r].TableCells[k], rc.Kids[k+1]
	var p pp
	if len(cc.Kids) > 1 && t.Bool() {
		n := t.Int(0, len(cc.Kids)-2)
		if n >= len(cell.Paragraphs) {
			t.Failf("table-shape", "cell %d,%d has %d paragraphs, expected %d", r, k, len(cell.Paragraphs), len(cc.Kids)-1)
		}
		p = pp{cell.Paragraphs[n], cc.Kids[n+1]}
		b.logf("table %d cell %d,%d paragraph %d", i, r, k, n)
	} else {
		p = pp{cell.AddParagraph(), oox.E("w:p").Add(oox.E("w:pPr"))}
		cc.Add(p.c)
		b.logf("table %d cell %d,%d AddParagraph", i, r, k)
	}
	switch t.Weighted(10, 2, 2, 1, 2) {
	case 0:
		b.addText(p)
	case 1:
		b.addLink(p)
	case 2:
		b.addPic(p)
	case 3:
		b.addShape(p)
	case 4:
		v, c, f := b.val("clear", "solid"), b.val("auto", "FF0000"), b.val("E7E6E6", "auto")
		b.logf(" Shade(%q,%q,%q)", v, c, f)
		cell.Shade(v, c, f)
		set(cc.Kids[0], oox.E("w:shd", "w:val", v, "w:color", c, "w:fill", f))
	}
	return true
}

func c18(t *pbt.T, maxr, maxc int) {
	b := newB(t)
	bc, want := colors(t)
	for round := 0; round < 2; round++ {
		for n := t.Int(1, 3); n > 0; n-- {
			if t.Chance(1, 3) {
				b.addText(b.addPara())
			}
			if !t.Chance(1, 4) { // else the colours of the one before, again
				bc, want = colors(t)
			}
			b.newTable(maxr, maxc, bc, want)
			b.Tables++
		}
		filled := 0
		ts := b.tables()
		for k := t.Int(0, 8); k > 0; k-- {
			if b.fillCell(ts[t.Int(0, len(ts)-1)]) {
				filled++
			}
		}
		for _, i := range ts {
			if c := b.Items[i]; len(c.Kids) >= 4 && len(c.Kids[2].Kids) >= 3 && filled >= 2 {
				t.NonTrivial()
			}
		}
		checkPlain(t, "tables", norm(b.Items, true), b.d, b.names)
		data, pkg := b.save("saved tables")
		d2 := parse(t, data)
		checkPlain(t, "reopened tables", pkg.Body(oox.Opt{Brief: true}), d2, true)
		data2 := save(t, d2)
		same(t, "second-save", "reopened tables", pkg.Body(oox.Opt{}), open(t, data2).Body(oox.Opt{}))
		if round == 0 {
			if t.Bool() {
				return
			}
			b.reopen("tables")
		}
	}
}
