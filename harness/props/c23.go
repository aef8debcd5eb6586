package props

import (
	"bytes"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C23",
		Level: "exploration",
		Rule:  "body items taken from built and parsed documents and media lists with names of all kinds (also those the library would choose itself) are made a document; it is saved, reopened, extended by building calls, appended to and split; non-trivial: at least one item and one media are given and a picture is added",
		Assumptions: []string{
			"items that refer to relationships of the document they come from are not given, as a list of items and media carries no relationships",
		},
		Subs: []pbt.Sub{
			{Name: "load", Quick: 3000, Weight: 3, Fn: c23},
		},
	})
}

func c23media(t *pbt.T) (out []docx.Media) {
	used := map[string]bool{}
	for k := t.Int(0, 6); k > 0; k-- {
		n := pbt.Pick(t, "image", "image", "Image", docgen.Word(t), "a b", "图") + pbt.Pick(t, itoa(t.Int(1, 9)), "", itoa(t.Int(1, 9))) + pbt.Pick(t, ".png", ".png", ".jpeg", ".gif", ".PNG", ".bin", "", ".v1.png", ".q&a")
		if used[strings.ToLower(n)] {
			continue
		}
		used[strings.ToLower(n)] = true
		out = append(out, docx.Media{Name: n, Data: docgen.Bytes(t)})
	}
	return
}

// c23has: the media are there, with their bytes.
func c23has(t *pbt.T, what string, d *docx.Docx, p *oox.Pkg, media []docx.Media) {
	for _, m := range media {
		got := d.Media(m.Name)
		if got == nil {
			t.Failf("media", "%s: the media %q cannot be found", what, m.Name)
		}
		if got.Name != m.Name || !bytes.Equal(got.Data, m.Data) {
			t.Failf("media", "%s: the media %q is %q with other bytes", what, m.Name, got.Name)
		}
		part, ok := p.Parts["word/media/"+m.Name]
		if !ok {
			t.Failf("media", "%s: there is no part for the media %q", what, m.Name)
		}
		if !bytes.Equal(part, m.Data) {
			t.Failf("media", "%s: the part of the media %q has other bytes", what, m.Name)
		}
	}
}

func c23(t *pbt.T) {
	// items of another document
	var src *docx.Docx
	var items []*oox.C
	if t.Bool() {
		b := newB(t)
		b.noPic, b.noLink = true, true
		for n := t.Int(0, 4+t.Size/8); n > 0; n-- {
			b.step()
		}
		src = b.d
		items = open(t, save(t, src)).Body(oox.Opt{Brief: true})
	} else {
		in := foreign(t, nil, false, func(g *docgen.G) { g.NoDrawing, g.NoLink = true, true })
		src = parse(t, in.Zip)
		items = open(t, save(t, src)).Body(oox.Opt{Brief: true})
	}
	before := src.Document.Body.Items
	// the lists may be the head of longer ones, whose rest belongs to others
	spare := t.Int(0, 3)
	whole := append([]interface{}{}, before...)
	for k := 0; k < spare; k++ {
		whole = append(whole, &docx.Paragraph{})
	}
	wholeItems := append([]interface{}{}, whole...)
	given := whole[:len(before)]
	wholeMedia := c23media(t)
	cut := len(wholeMedia)
	if spare > 0 {
		cut = t.Int(0, cut)
	}
	media := wholeMedia[:cut]
	rest := append([]docx.Media{}, wholeMedia[cut:]...)
	kept := make([]docx.Media, len(media))
	for i, m := range media {
		kept[i] = docx.Media{Name: m.Name, Data: append([]byte(nil), m.Data...)}
		t.Logf("media %q %s", m.Name, docgen.Describe(m.Data))
	}
	d := docx.LoadBodyItems(given, media)
	if len(d.Document.Body.Items) != len(before) {
		t.Failf("items", "%d items given, %d held", len(before), len(d.Document.Body.Items))
	}
	for i := range before {
		if d.Document.Body.Items[i] != before[i] {
			t.Failf("items", "item %d is not the given one", i)
		}
	}
	for _, n := range []string{"nothing.png", "", "word/media/image1.png"} {
		if m := d.Media(n); m != nil && m.Name != n {
			t.Failf("media", "looking for the media %q gives %q", n, m.Name)
		}
	}
	withTemplate(d)
	p := open(t, save(t, d))
	same(t, "content", "saved list of items", items, p.Body(oox.Opt{Brief: true}))
	c23has(t, "saved", d, p, kept)
	n := 0
	for _, x := range p.Names {
		if isMedia(x) {
			n++
		}
	}
	if n != len(kept) {
		t.Failf("media", "%d media given, %d saved", len(kept), n)
	}

	// go on with it
	b := wrapB(t, d, items)
	b.shared = true // the items belong to two documents
	b.noShape = t.Bool()
	b.picHeavy = t.Bool()
	for k := t.Int(0, 4+t.Size/10); k > 0; k-- {
		switch t.Weighted(12, 1, 1, 1) {
		case 0:
			p := b.addPara()
			for j := t.Int(1, 3); j > 0; j-- {
				switch t.Weighted(3, 2, 1, 1) {
				case 0:
					b.addPic(p)
				case 1:
					b.addLink(p)
				case 2:
					b.badPic(p)
				case 3:
					b.addText(p)
				}
			}
		case 1: // another document is appended
			o := newB(t)
			o.names, o.picHeavy, o.linkHeavy = false, true, t.Bool()
			for n := t.Int(1, 5); n > 0; n-- {
				o.step()
			}
			t.Logf("append it")
			b.d.AppendFile(o.d)
			b.Items = append(b.Items, cloneItems(o.Items)...)
			b.Pics += o.Pics
		case 2:
			b.addTable(2, 2)
		case 3:
			b.reopen("reopened list of items")
			b.shared = true
		}
	}
	if b.Pics > 0 && len(items) > 0 && len(kept) > 0 {
		t.NonTrivial()
	}
	data, pkg := b.save("extended list of items")
	c23has(t, "extended", b.d, pkg, kept)
	ids := map[string]bool{}
	for _, r := range pkg.Rels {
		if ids[r.ID] {
			t.Failf("rel-id", "two relationships have the identifier %q", r.ID)
		}
		ids[r.ID] = true
	}
	d2 := parse(t, data)
	c23has(t, "reopened", d2, openZip(t, save(t, d2)), kept)
	for i, x := range wholeItems {
		if whole[i] != x {
			t.Failf("caller", "item %d of the caller's list of %d, of which %d were given, is another one now", i, len(whole), len(before))
		}
	}
	for i, m := range kept {
		if media[i].Name != m.Name || !bytes.Equal(media[i].Data, m.Data) {
			t.Failf("caller", "media %d of the caller's list is %q with other bytes now", i, media[i].Name)
		}
	}
	for i, m := range rest {
		if w := wholeMedia[cut+i]; w.Name != m.Name || !bytes.Equal(w.Data, m.Data) {
			t.Failf("caller", "media %d of the caller's list of %d, of which %d were given, was %q and is %q now", cut+i, len(wholeMedia), cut, m.Name, w.Name)
		}
	}
}
