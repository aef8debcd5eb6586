package props

import (
	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C12",
		Level: "exploration",
		Rule:  "documents (built, parsed from foreign packages, pieces of others, reopened) are appended to each other and to themselves; the saved result is compared in full detail with the concatenation of the saved inputs; non-trivial: the appended document has a picture, link, table or drawing",
		Subs: []pbt.Sub{
			{Name: "pair", Quick: 1500, Weight: 3, Fn: c12pair},
			{Name: "sequence", Quick: 700, Weight: 2, Fn: c12seq},
			{Name: "history", Quick: 400, Weight: 2, Fn: c12},
			{Name: "structures", Quick: 800, Weight: 2, Fn: c12structures},
			large("large", 20, c12large),
			large("chain", 20, c12chain),
			wideSub("wide", 80, c12wide),
		},
	})
}

// rich is whether a document has content with references.
func rich(b *B) bool {
	var f func(l []*oox.C) bool
	f = func(l []*oox.C) bool {
		for _, c := range l {
			switch c.Name {
			case "drawing", "w:hyperlink", "w:tbl":
				return true
			}
			if f(c.Kids) {
				return true
			}
		}
		return false
	}
	return f(b.Items)
}

// fill a document of a world which may be built.
func fill(b *B, n int) *B {
	for k := b.t.Int(0, n); k > 0; k-- {
		b.step()
	}
	return b
}

func c12pair(t *pbt.T) {
	w := newWorld(t)
	dst, src := fill(w.add(), 6), fill(w.add(), 8)
	if t.Chance(1, 4) {
		w.check(src)
		src.reopen("source")
	}
	if t.Chance(1, 4) {
		w.check(dst)
		dst.reopen("destination")
	}
	w.append(dst, src)
	if rich(src) {
		t.NonTrivial()
	}
	// the result holds the same in memory, and after reopening
	checkPlain(t, "result in memory", dst.Items, dst.d, false)
	data, _ := w.check(dst)
	d2 := parse(t, data)
	checkPlain(t, "reopened result", dst.Items, d2, false)
	sameParts(t, "resaved", "result saved again after reopening", data, save(t, d2))
	// adding to the result does not touch the source
	sd := save(t, src.d)
	for k := t.Int(0, 4); k > 0; k-- {
		if ts := dst.tables(); len(ts) > 0 && t.Chance(1, 3) {
			dst.editTable(ts[len(ts)-1])
			continue
		}
		dst.step()
	}
	w.check(dst)
	sameParts(t, "source-changed", "the source after additions to the result", sd, save(t, src.d))
}

func c12seq(t *pbt.T) {
	w := newWorld(t)
	w.gen = func(g *docgen.G) { g.NoTable = t.Bool() }
	n := t.Int(1, 3)
	for i := 0; i < n; i++ {
		fill(w.add(), 4)
	}
	dst := w.add()
	for k := t.Int(2, 6); k > 0 && len(dst.Items) < 40; k-- {
		src := w.docs[t.Int(0, len(w.docs)-1)]
		if rich(src) {
			t.NonTrivial()
		}
		if t.Chance(1, 3) { // compare only at the end
			dst.d.AppendFile(src.d)
			t.Logf("append %s to %s without saving", src.tag, dst.tag)
			dst.Items = append(dst.Items, cloneItems(src.Items)...)
			dst.shared, src.shared = true, true
			continue
		}
		w.append(dst, src)
	}
	for _, b := range w.docs {
		w.check(b)
	}
	dst.reopen("the end")
	w.check(dst)
}

func c12(t *pbt.T) {
	w := newWorld(t)
	w.wAppend = 9
	w.run(t.Int(2, 4+t.Size/8))
	if w.Appends > 0 {
		t.NonTrivial()
	}
}
