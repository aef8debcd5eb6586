package props

import (
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C10",
		Level: "exploration",
		Rule:  "a random history over several documents (built, or parsed with odd media names): adding pictures, saving and reopening, appending (also to itself), splitting, merging; after each step the bytes behind every picture are compared with those it was added with; non-trivial: at least two distinct pictures and one operation other than adding",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 1200, Weight: 3, Fn: c10},
			{Name: "names", Quick: 1500, Fn: c10names},
			{Name: "refused", Quick: 2000, Fn: c10refused},
			large("large", 30, c10large),
		},
	})
}

// pictureSums lists the bytes behind the pictures of a model in order.
func pictureSums(l []*oox.C) (out []string) {
	for _, c := range l {
		if c.Name == "drawing" && c.At["kind"] == "pic" {
			out = append(out, c.At["media"])
		}
		out = append(out, pictureSums(c.Kids)...)
	}
	return
}

// memoryPictures lists the bytes behind the pictures of a document in memory.
func memoryPictures(t *pbt.T, d *docx.Docx) (out []string) {
	tgt := map[string]string{}
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		if r.Type == docx.REL_IMAGE {
			tgt[r.ID] = r.Target
		}
		return nil
	})
	one := func(r *docx.Run) {
		for _, c := range r.Children {
			dr, ok := c.(*docx.Drawing)
			if !ok {
				continue
			}
			var g *docx.AGraphic
			if dr.Inline != nil {
				g = dr.Inline.Graphic
			} else if dr.Anchor != nil {
				g = dr.Anchor.Graphic
			}
			if g == nil || g.GraphicData == nil || g.GraphicData.Pic == nil || g.GraphicData.Pic.BlipFill == nil {
				continue
			}
			id := g.GraphicData.Pic.BlipFill.Blip.Embed
			x, ok := tgt[id]
			if !ok {
				t.Failf("memory", "a picture in memory refers to %q, which is no picture relationship", id)
			}
			n := oox.Resolve(x)
			if !isMedia(n) {
				out = append(out, "elsewhere")
				continue
			}
			m := d.Media(n[len("word/media/"):])
			if m == nil {
				t.Failf("memory", "the media %q of a picture is not there", x)
			}
			out = append(out, oox.Sum(m.Data))
		}
	}
	for _, p := range paragraphs(d) {
		for _, c := range p.Children {
			switch x := c.(type) {
			case *docx.Run:
				one(x)
			case *docx.Hyperlink:
				one(&x.Run)
			}
		}
	}
	return
}

func checkPictures(t *pbt.T, b *B, p *oox.Pkg) {
	want := join(pictureSums(b.Items))
	sameStr(t, "pictures", "pictures of the saved document", want, join(pictureSums(p.Body(oox.Opt{Brief: true}))))
	// nested tables are not part of what paragraphs lists
	mem, flat := memoryPictures(t, b.d), flatPictures(b.Items)
	for i := range mem {
		if mem[i] == "elsewhere" && i < len(flat) {
			flat[i] = mem[i] // Media does not give those
		}
	}
	sameStr(t, "memory", "pictures in memory", join(flat), join(mem))
	// every picture part the document uses has the bytes and is used for no other picture
	byPart := map[string]string{}
	p.Doc.Walk(func(n *xt.Node) {
		if n.NS == oox.A && n.Local == "blip" {
			id, _ := n.Attr(oox.R, "embed")
			name, data, err := p.Media(id)
			if err != nil {
				t.Failf("no-data", "%v", err)
			}
			s := oox.Sum(data)
			if x, ok := byPart[strings.ToLower(name)]; ok && x != s {
				t.Failf("shared-part", "two pictures share the part %q", name)
			}
			byPart[strings.ToLower(name)] = s
		}
	})
	seen := map[string]string{}
	for _, n := range p.Names {
		if isMedia(n) {
			l := strings.ToLower(n)
			if o, ok := seen[l]; ok {
				t.Failf("shared-part", "the parts %q and %q have the same name", o, n)
			}
			seen[l] = n
		}
	}
}

// flatPictures as pictureSums, for paragraphs of the body and of cells of its tables.
func flatPictures(items []*oox.C) (out []string) {
	para := func(p *oox.C) {
		for _, r := range p.Kids {
			switch r.Name {
			case "w:r":
				for _, k := range r.Kids {
					if k.Name == "drawing" && k.At["kind"] == "pic" {
						out = append(out, k.At["media"])
					}
				}
			case "w:hyperlink":
				for _, rr := range r.Kids {
					for _, k := range rr.Kids {
						if k.Name == "drawing" && k.At["kind"] == "pic" {
							out = append(out, k.At["media"])
						}
					}
				}
			}
		}
	}
	for _, c := range items {
		switch c.Name {
		case "w:p":
			para(c)
		case "w:tbl":
			for _, tr := range c.Kids {
				for _, tc := range tr.Kids {
					for _, k := range tc.Kids {
						if k.Name == "w:p" {
							para(k)
						}
					}
				}
			}
		}
	}
	return
}

func c10(t *pbt.T) {
	w := newWorld(t)
	w.tune = func(b *B) { b.noStyle, b.noShape, b.noSect = true, true, true; b.picHeavy = true }
	w.after = func(b *B, _ []byte, p *oox.Pkg) { checkPictures(t, b, p) }
	w.run(t.Int(1, 3+t.Size/8))
	sums := map[string]bool{}
	n := 0
	for _, b := range w.docs {
		for _, s := range pictureSums(b.Items) {
			sums[s] = true
			n++
		}
	}
	if len(sums) >= 2 && w.Appends+w.Selfs+w.Splits+w.Reopens+w.Merges > 0 {
		t.NonTrivial()
	}
}

// c10names parses a package whose media have names the library would choose itself.
func c10names(t *pbt.T) {
	var rels []oox.Rel
	var parts []docgen.Part
	body := ""
	var want []string
	n := t.Int(1, 6)
	base := pbt.Pick(t, 1, 100001, 100000, 9)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		data := docgen.Image(t)
		name := "image" + itoa(base+t.Int(0, n)) + pbt.Pick(t, ".png", ".jpeg", ".gif", ".webp", ".PNG")
		if seen[strings.ToLower(name)] {
			continue
		}
		seen[strings.ToLower(name)] = true
		id := "rId" + itoa(pbt.Pick(t, i+1, 100+i, 7*i+3))
		dup := false
		for _, r := range rels {
			dup = dup || r.ID == id
		}
		if dup {
			continue
		}
		rels = append(rels, oox.Rel{ID: id, Type: oox.RImg, Target: "media/" + name})
		parts = append(parts, docgen.Part{Name: "word/media/" + name, Data: data})
		body += `<w:p><w:r><w:drawing><wp:inline><wp:extent cx="5" cy="5"/><wp:docPr id="` + itoa(i+1) + `" name="x"/><a:graphic><a:graphicData uri="` + oox.PIC + `"><pic:pic><pic:blipFill><a:blip r:embed="` + id + `"/></pic:blipFill><pic:spPr/></pic:pic></a:graphicData></a:graphic></wp:inline></w:drawing></w:r></w:p>`
		want = append(want, oox.Sum(data))
		t.Logf("media %s %s md5 %s", id, name, oox.Sum(data))
	}
	z := miniZip(body, rels, parts...)
	d := parse(t, z)
	for round := 0; round < 2; round++ {
		p := d.AddParagraph()
		for k := t.Int(1, 6); k > 0; k-- {
			data, format, _, _ := docgen.ImageInfo(t)
			t.Logf("add %s md5 %s", format, oox.Sum(data))
			var err error
			if t.Bool() {
				_, err = p.AddInlineDrawing(data)
			} else {
				_, err = p.AddAnchorDrawing(data)
			}
			t.Check("picture-refused", err)
			want = append(want, oox.Sum(data))
		}
		out := save(t, d)
		pk := open(t, out)
		sameStr(t, "pictures", "pictures in order", join(want), join(pictureSums(pk.Body(oox.Opt{Brief: true}))))
		sameStr(t, "memory", "pictures in memory", join(want), join(memoryPictures(t, d)))
		t.Logf("save and reopen")
		d = parse(t, out)
	}
	t.NonTrivial()
}

func itoa(n int) string { return oox.Itoa(n) }

// c10refused: pictures which are refused change nothing.
func c10refused(t *pbt.T) {
	d := someDoc(t)
	p := d.AddParagraph()
	before, st := save(t, d), state(d)
	for k := t.Int(1, 3); k > 0; k-- {
		data := docgen.BadImage(t)
		if t.Chance(1, 3) {
			data = docgen.Bytes(t)
		}
		t.Logf("picture %s", docgen.Describe(data))
		var err error
		switch t.Int(0, 3) {
		case 0:
			_, err = p.AddInlineDrawing(data)
		case 1:
			_, err = p.AddAnchorDrawing(data)
		case 2:
			_, err = p.AddInlineDrawingFrom(Scratch + "/does/not/exist.png")
		default:
			_, err = p.AddAnchorDrawingFrom(Scratch)
		}
		if err == nil {
			t.Discard()
		}
		t.NonTrivial()
		if s := state(d); s != st {
			t.Failf("refused-changed", "a refused picture (%v) changed the document: %s", err, oox.DiffText(st, s))
		}
	}
	sameParts(t, "refused-changed", "after refused pictures", before, save(t, d))
	// the next picture is as if nothing had happened
	data := docgen.Image(t)
	_, err := p.AddInlineDrawing(data)
	t.Check("picture-refused", err)
	pk := open(t, save(t, d))
	ps := pictureSums(pk.Body(oox.Opt{Brief: true}))
	if len(ps) == 0 || ps[len(ps)-1] != oox.Sum(data) {
		t.Failf("pictures", "the picture added afterwards is not the last one: %v", ps)
	}
}
