package props

import (
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C01",
		Level: "exploration",
		Rule:  "the program adds at least three things of at least two kinds (text, link, picture, shape, table, formatting) before it is saved and reopened",
		Subs: []pbt.Sub{
			{Name: "program", Quick: 3000, Fn: func(t *pbt.T) { c01(t, 3+t.Size/2, 3) }},
			{Name: "long", Quick: 60, Fn: func(t *pbt.T) { c01(t, 300+3*t.Size, 2) }},
		},
	})
}

func c01(t *pbt.T, steps, rounds int) {
	b := newB(t)
	for round := 0; round < rounds; round++ {
		n := t.Int(1, steps)
		for i := 0; i < n; i++ {
			b.step()
		}
		t.Logf("save, parse, compare")
		data, pkg := b.save("saved document")
		checkPlain(t, "before saving", norm(b.Items, true), b.d, b.names)
		d2 := parse(t, data)
		checkPlain(t, "after reopening", pkg.Body(oox.Opt{Brief: true}), d2, true)
		data2 := save(t, d2)
		pkg2 := open(t, data2)
		same(t, "second-save", "saving the reopened document", pkg.Body(oox.Opt{}), pkg2.Body(oox.Opt{}))
		kinds := 0
		for _, k := range []int{b.Links, b.Pics, b.Shapes, b.Tables, b.Styles} {
			if k > 0 {
				kinds++
			}
		}
		if kinds >= 2 && len(b.Items) > 0 {
			t.NonTrivial()
		}
		if round+1 < rounds {
			if t.Bool() {
				b.reopen("saved document")
			} else if t.Bool() {
				return
			}
		}
	}
}
