package props

import (
	"errors"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C11",
		Level: "exploration",
		Rule:  "a random history over several documents with many links (repeated, odd and empty addresses, foreign packages with odd relationship identifiers); after each step captions and targets are compared with the model and the lookups with the saved relationships; non-trivial: at least two different targets and one operation other than adding, or a lookup list of at least three relationships",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 1200, Weight: 3, Fn: c11},
			{Name: "ids", Quick: 2500, Fn: c11ids},
			{Name: "stop", Quick: 2000, Fn: c11stop},
			large("large", 20, c11large),
		},
	})
}

var errStop = errors.New("stop here")

// checkLookups compares lookups with the relationships saved.
func checkLookups(t *pbt.T, d *docx.Docx, rels []oox.Rel) {
	i := 0
	err := d.RangeRelationships(func(r *docx.Relationship) error {
		if i >= len(rels) {
			t.Failf("iteration", "relationship %d (%s) is not in the saved list", i, r.ID)
		}
		if g := (oox.Rel{ID: r.ID, Type: r.Type, Target: r.Target, Mode: r.TargetMode}); g != rels[i] {
			t.Failf("iteration", "relationship %d is %+v, saved as %+v", i, g, rels[i])
		}
		i++
		return nil
	})
	if err != nil {
		t.Failf("iteration", "an iteration without errors returns %v", err)
	}
	if i != len(rels) {
		t.Failf("iteration", "%d of %d relationships visited", i, len(rels))
	}
	byTarget := map[string]map[string]bool{}
	for _, r := range rels {
		if byTarget[r.Target] == nil {
			byTarget[r.Target] = map[string]bool{}
		}
		byTarget[r.Target][r.ID] = true
	}
	for _, r := range rels {
		x, err := d.ReferTarget(r.ID)
		if err != nil || x != r.Target {
			t.Failf("refer-target", "ReferTarget(%q) = %q, %v; saved target is %q", r.ID, x, err, r.Target)
		}
		id, err := d.ReferID(r.Target)
		if err != nil || !byTarget[r.Target][id] {
			t.Failf("refer-id", "ReferID(%q) = %q, %v; saved identifiers are %v", r.Target, id, err, byTarget[r.Target])
		}
	}
	unknown := func(id string) {
		for _, r := range rels {
			if r.ID == id {
				return
			}
		}
		if x, err := d.ReferTarget(id); err == nil {
			t.Failf("refer-target", "ReferTarget(%q) = %q though there is no such relationship", id, x)
		}
	}
	unknown("")
	unknown("rId")
	unknown("rId0")
	for _, r := range rels {
		unknown(r.ID + "0")
		unknown(strings.ToLower(r.ID))
		unknown(r.ID[:len(r.ID)-1])
		unknown(" " + r.ID)
		for _, x := range []string{r.Target + "x", strings.ToUpper(r.Target), strings.TrimSuffix(r.Target, "a"), r.ID, r.Type} {
			if byTarget[x] == nil {
				if id, err := d.ReferID(x); err == nil {
					t.Failf("refer-id", "ReferID(%q) = %q though there is no such target", x, id)
				}
			}
		}
	}
}

// memoryLinks: the links held in memory lead to the targets of the model.
func memoryLinks(t *pbt.T, b *B) {
	for _, p := range b.paras() {
		for _, r := range b.linksOf(p) {
			want, ok := r.c.At["link"]
			if !ok {
				continue
			}
			if i := strings.IndexByte(want, '|'); i >= 0 {
				want = want[i+1:]
			}
			got, err := b.d.ReferTarget(r.h.ID)
			if err != nil || got != want {
				t.Failf("memory", "the link %q in memory leads to %q, %v; expected %q", r.h.ID, got, err, want)
			}
		}
	}
}

type hh struct {
	h *docx.Hyperlink
	c *oox.C
}

func (b *B) linksOf(p pp) []hh {
	var cs []*oox.C
	for _, k := range p.c.Kids {
		if k.Name == "w:hyperlink" {
			cs = append(cs, k)
		}
	}
	var out []hh
	for _, k := range p.p.Children {
		if h, ok := k.(*docx.Hyperlink); ok {
			if len(out) >= len(cs) {
				b.t.Failf("items", "a paragraph has more links than expected: %q", short(p.p.String()))
			}
			out = append(out, hh{h, cs[len(out)]})
		}
	}
	if len(out) != len(cs) {
		b.t.Failf("items", "a paragraph has %d links, expected %d: %q", len(out), len(cs), short(p.p.String()))
	}
	return out
}

func countLinks(l []*oox.C, m map[string]int) {
	for _, c := range l {
		if c.Name == "w:hyperlink" {
			m[c.At["link"]+"#"+c.At["w:anchor"]]++
		}
		countLinks(c.Kids, m)
	}
}

func c11(t *pbt.T) {
	w := newWorld(t)
	w.tune = func(b *B) { b.noStyle, b.noShape, b.noSect = true, true, true; b.linkHeavy = true }
	w.gen = func(g *docgen.G) { g.NoDrawing = t.Bool() }
	w.after = func(b *B, _ []byte, p *oox.Pkg) {
		checkLookups(t, b.d, p.Rels)
		memoryLinks(t, b)
	}
	w.run(t.Int(1, 3+t.Size/8))
	m := map[string]int{}
	for _, b := range w.docs {
		countLinks(b.Items, m)
	}
	if len(m) >= 2 && w.Appends+w.Selfs+w.Splits+w.Reopens > 0 {
		t.NonTrivial()
	}
}

// oddIDs makes distinct relationship identifiers.
func oddIDs(t *pbt.T, n int) (out []string) {
	seen := map[string]bool{}
	for len(out) < n {
		id := "rId"
		switch t.Weighted(6, 2, 1, 1) {
		case 0:
			id += itoa(t.Int(1, 3*n))
		case 1:
			id += "00" + itoa(t.Int(1, n))
		case 2:
			id += pbt.Pick(t, "0", "4294967295", "4294967296", "2147483647", "2147483648", "4611686018427387903", "99999", "100000")
		default:
			id += pbt.Pick(t, "18446744073709551615", "9223372036854775807", "9223372036854775808", "18446744073709551614", "4611686018427387904")
		}
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
		} else if t.Chance(1, 3) {
			n--
		}
	}
	return
}

// c11ids parses packages with odd relationship identifiers and goes on with them.
func c11ids(t *pbt.T) {
	ids := oddIDs(t, t.Int(1, 6))
	var rels []oox.Rel
	body := ""
	var want []*oox.C
	for _, id := range ids {
		u := docgen.URL(t)
		rels = append(rels, oox.Rel{ID: id, Type: oox.RLnk, Target: u, Mode: "External"})
		t.Logf("rel %s %q", id, u)
	}
	for _, r := range rels {
		if t.Chance(3, 4) {
			at, h := "", oox.E("w:hyperlink", "link", "External|"+r.Target)
			if t.Chance(1, 4) {
				a := pbt.Pick(t, "mark", "#mark", "a b", "书", "0", "a#b", "-")
				at = ` w:anchor="` + a + `"`
				h.At["w:anchor"] = a
			}
			body += `<w:p><w:hyperlink r:id="` + r.ID + `"` + at + `><w:r><w:t>` + r.ID + `</w:t></w:r></w:hyperlink></w:p>`
			want = append(want, oox.E("w:p").Add(h.Add(oox.E("w:r").Add(textC(r.ID)))))
		}
	}
	d := parse(t, miniZip(body, rels))
	b := wrapB(t, d, want)
	for round := t.Int(1, 3); round > 0; round-- {
		for k := t.Int(0, 4); k > 0; k-- {
			b.addLink(b.addPara())
		}
		data, p := b.save("with odd identifiers")
		checkLookups(t, b.d, p.Rels)
		memoryLinks(t, b)
		for _, r := range rels {
			if p.ByID[r.ID] != r {
				t.Failf("rel", "relationship %+v became %+v", r, p.ByID[r.ID])
			}
		}
		if t.Bool() {
			t.Logf("reopen")
			b.d = parse(t, data)
		}
		if t.Chance(1, 3) {
			t.Logf("append to a new document")
			n := newB(t)
			n.names = false
			for k := t.Int(0, 3); k > 0; k-- {
				n.addLink(n.addPara())
			}
			n.d.AppendFile(b.d)
			n.Items = append(n.Items, cloneItems(b.Items)...)
			b = n
			rels = nil
		}
	}
	t.NonTrivial()
}

// c11stop: iterating stops at the first error.
func c11stop(t *pbt.T) {
	d := someDoc(t)
	for k := t.Int(0, 3); k > 0; k-- {
		d.AddParagraph().AddLink("x", docgen.URL(t))
	}
	p := open(t, save(t, d))
	if len(p.Rels) == 0 {
		t.Discard()
	}
	if len(p.Rels) >= 3 {
		t.NonTrivial()
	}
	at := t.Int(0, len(p.Rels)-1)
	n := 0
	err := d.RangeRelationships(func(r *docx.Relationship) error {
		if r.ID != p.Rels[n].ID {
			t.Failf("iteration", "relationship %d is %q, saved as %q", n, r.ID, p.Rels[n].ID)
		}
		n++
		if n == at+1 {
			return errStop
		}
		return nil
	})
	if !errors.Is(err, errStop) {
		t.Failf("stop", "the error of the iterator is returned as %v", err)
	}
	if n != at+1 {
		t.Failf("stop", "the iterator is called %d times, it failed at call %d", n, at+1)
	}
	checkLookups(t, d, p.Rels)
}
