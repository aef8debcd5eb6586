package props

import (
	"bytes"
	"strings"

	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C03",
		Level: "exploration",
		Rule:  "a random package with further parts, media and relationships is parsed, edited at random and saved; non-trivial: at least two parts besides the generated ones and at least one relationship that the body does not use",
		Subs: []pbt.Sub{
			{Name: "package", Quick: 2500, Fn: c03},
			large("large", 40, c03large),
			large("many", 12, c03many),
		},
	})
}

// samePassThrough compares all parts which pass through.
func samePassThrough(t *pbt.T, before, after *oox.Pkg, picturesAdded bool) {
	for _, n := range before.Names {
		if strings.HasSuffix(n, "/") || n == oox.DocPart || n == oox.RelsPart {
			continue
		}
		got, ok := after.Parts[n]
		if !ok {
			t.Failf("part-lost", "part %q is not in the saved package", n)
		}
		if n == oox.CTPart && picturesAdded {
			sameTypes(t, before.Parts[n], got)
			continue
		}
		if !bytes.Equal(before.Parts[n], got) {
			t.Failf("part-changed", "part %q was changed: %s", n, oox.DiffText(string(before.Parts[n]), string(got)))
		}
	}
	for _, n := range after.Names {
		if _, ok := before.Parts[n]; ok || n == oox.DocPart || n == oox.RelsPart {
			continue
		}
		if picturesAdded && strings.HasPrefix(n, "word/media/") {
			continue
		}
		t.Failf("part-added", "part %q was not in the original", n)
	}
}

// types of a content-type list.
func types(b []byte) (map[string]string, error) {
	root, err := xt.Parse(b)
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, e := range root.Elems() {
		if e.NS != oox.CT {
			continue
		}
		ct, _ := e.Attr("", "ContentType")
		switch e.Local {
		case "Default":
			x, _ := e.Attr("", "Extension")
			m["."+strings.ToLower(x)] = ct
		case "Override":
			x, _ := e.Attr("", "PartName")
			m[strings.ToLower(x)] = ct
		}
	}
	return m, nil
}

// ambiguousTypes returns what has two entries in a content-type list.
func ambiguousTypes(b []byte) (l []string) {
	root, err := xt.Parse(b)
	if err != nil {
		return nil
	}
	seen := map[string]bool{}
	for _, e := range root.Elems() {
		k := ""
		switch e.Local {
		case "Default":
			k, _ = e.Attr("", "Extension")
		case "Override":
			k, _ = e.Attr("", "PartName")
		default:
			continue
		}
		k = e.Local + " " + strings.ToLower(k)
		if seen[k] {
			l = append(l, k)
		}
		seen[k] = true
	}
	return
}

// sameTypes allows additions to the content-type list only.
func sameTypes(t *pbt.T, a, b []byte) { sameTypesBut(t, a, b, nil) }

// sameTypesBut also allows those without use to be missing.
func sameTypesBut(t *pbt.T, a, b []byte, unused func(k string) bool) {
	if bytes.Equal(a, b) {
		return
	}
	am, err := types(a)
	if err != nil {
		t.Failf("part-changed", "the content-type list was changed though it cannot be read")
	}
	bm, err := types(b)
	if err != nil {
		t.Failf("part-changed", "the content-type list is broken: %v", err)
	}
	for k, v := range am {
		if _, ok := bm[k]; !ok && unused != nil && unused(k) {
			continue
		}
		if bm[k] != v {
			t.Failf("part-changed", "the content type of %q was %q and is %q", k, v, bm[k])
		}
	}
}

// sameRels: every relationship is kept.
func sameRels(t *pbt.T, before, after *oox.Pkg) {
	for _, r := range before.Rels {
		g, ok := after.ByID[r.ID]
		if !ok {
			t.Failf("rel-lost", "relationship %+v is not in the saved package", r)
		}
		if g != r {
			t.Failf("rel-changed", "relationship %+v became %+v", r, g)
		}
	}
}

func c03(t *pbt.T) {
	in := foreign(t, nil, true, nil)
	before := open(t, in.Zip)
	d := parse(t, in.Zip)
	b := wrapB(t, d, before.Body(oox.Opt{Brief: true, NoNames: true}))
	n := 0
	if t.Chance(2, 3) {
		n = t.Int(1, 12)
	}
	b.noPic = t.Bool()
	for i := 0; i < n; i++ {
		b.step()
	}
	if t.Chance(1, 8) {
		b.d.Document.Body.Items = nil
		t.Logf("body emptied")
		b.Items = nil
	}
	rounds := t.Int(1, 2)
	for r := 0; r < rounds; r++ {
		data := save(t, b.d)
		after := open(t, data)
		samePassThrough(t, before, after, b.Pics > 0)
		sameRels(t, before, after)
		if b.Pics == 0 && b.Links == 0 && len(after.Rels) != len(before.Rels) {
			t.Failf("rel-added", "there are %d relationships, %d in the original", len(after.Rels), len(before.Rels))
		}
		b.d = parse(t, data)
	}
	// the raw relationships of the library agree
	used := map[string]bool{}
	before.Doc.Walk(func(n *xt.Node) {
		for _, a := range n.Attrs {
			if a.NS == oox.R {
				used[a.Val] = true
			}
		}
	})
	unused := false
	for _, r := range before.Rels {
		unused = unused || !used[r.ID]
	}
	if len(before.Names) >= 5 && unused {
		t.NonTrivial()
	}
}
