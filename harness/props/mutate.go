package props

import (
	"strings"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

var oddValues = []string{"", "0", "-1", "1", "9999999999999999999999", "-9223372036854775809", "NaN", "inf", "1e400", "abc", " 12 ", "12pt", "0x10", "rId1", "rId0", "rId", "true", "\u00a0", "1.5", "..", "../../x", "/", "media/", "{}", "%s"}
var localNames = []string{"p", "r", "t", "tbl", "tr", "tc", "tblPr", "tblGrid", "gridCol", "pPr", "rPr", "drawing", "inline", "anchor", "graphic", "graphicData", "pic", "blipFill", "blip", "spPr", "xfrm", "off", "ext", "wsp", "wpc", "wgp", "grpSp", "txbx", "txbxContent", "hyperlink", "instrText", "tab", "br", "sectPr", "pgSz", "docPr", "cNvPr", "numPr", "numId", "ilvl", "ind", "spacing", "AlternateContent", "Choice", "Fallback", "body", "document", "shd", "b", "i", "u", "tabs", "bodyPr", "ln", "prstGeom", "avLst", "extent", "positionH", "posOffset", "extLst"}

// mutateTree damages a tree.
func mutateTree(t *pbt.T, root *xt.Node, n int) {
	for ; n > 0; n-- {
		var nodes, parents []*xt.Node
		var walk func(x, p *xt.Node)
		walk = func(x, p *xt.Node) {
			if x.Local != "" {
				nodes = append(nodes, x)
				parents = append(parents, p)
			}
			for _, k := range x.Kids {
				walk(k, x)
			}
		}
		walk(root, nil)
		i := t.Int(0, len(nodes)-1)
		x, p := nodes[i], parents[i]
		pos := -1
		if p != nil {
			for j, k := range p.Kids {
				if k == x {
					pos = j
				}
			}
		}
		switch t.Weighted(4, 2, 2, 3, 3, 2, 2, 1, 2) {
		case 0: // delete
			if pos >= 0 {
				p.Kids = append(p.Kids[:pos:pos], p.Kids[pos+1:]...)
			}
		case 1: // duplicate
			if pos >= 0 && len(nodes) < 5000 {
				p.Kids = append(p.Kids[:pos+1:pos+1], append([]*xt.Node{x.Clone()}, p.Kids[pos+1:]...)...)
			}
		case 2: // put a copy somewhere else
			if len(nodes) < 5000 {
				y := nodes[t.Int(0, len(nodes)-1)]
				y.Kids = append(y.Kids, x.Clone())
			}
		case 3: // rename
			x.Local = pbt.Pick(t, localNames...)
		case 4: // change an attribute
			if len(x.Attrs) > 0 {
				x.Attrs[t.Int(0, len(x.Attrs)-1)].Val = pbt.Pick(t, oddValues...)
			}
		case 5: // drop an attribute
			if len(x.Attrs) > 0 {
				j := t.Int(0, len(x.Attrs)-1)
				x.Attrs = append(x.Attrs[:j:j], x.Attrs[j+1:]...)
			}
		case 6: // drop the content
			x.Kids = nil
		case 7: // text where none is expected
			x.Kids = append(x.Kids, &xt.Node{Text: pbt.Pick(t, oddValues...)})
		case 8: // add an attribute
			ns := pbt.Pick(t, "", oox.W, oox.R)
			l := pbt.Pick(t, "val", "id", "embed", "w", "cx", "anchor", "type", "sz", "name", "space")
			dup := false
			for _, a := range x.Attrs {
				dup = dup || a.NS == ns && a.Local == l
			}
			if !dup {
				x.Attrs = append(x.Attrs, xt.Attr{NS: ns, Local: l, Val: pbt.Pick(t, oddValues...)})
			}
		}
	}
}

// mutateBytes damages bytes.
func mutateBytes(t *pbt.T, b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for ; n > 0 && len(b) > 0; n-- {
		i := t.Int(0, len(b)-1)
		switch t.Int(0, 6) {
		case 0:
			b[i] = byte(t.Int(0, 255))
		case 1:
			b[i] ^= 1 << t.Int(0, 7)
		case 2:
			j := min(len(b), i+t.Int(1, 20))
			b = append(b[:i:i], b[j:]...)
		case 3:
			j := min(len(b), i+t.Int(1, 40))
			b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		case 4:
			b = b[:i]
		case 5:
			ins := pbt.Pick(t, "<", ">", "/>", "</w:p>", "<w:p>", "<w:tbl>", "&", "&#0;", "]]>", "<![CDATA[", "<!--", "\x00", "\xff", "<?x?>", "=", "\"", "<w:drawing/>", "<a/>", "xmlns=\"\"")
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
		case 6: // swap two pieces between tags
			s := string(b)
			j := strings.IndexByte(s[i:], '<')
			if j >= 0 {
				k := strings.IndexByte(s[i+j:], '>')
				if k >= 0 {
					tag := s[i+j : i+j+k+1]
					at := t.Int(0, len(b)-1)
					b = []byte(s[:at] + tag + s[at:])
				}
			}
		}
	}
	return b
}

// oddRels damages relationships.
func oddRels(t *pbt.T, rels []oox.Rel) []oox.Rel {
	rels = append([]oox.Rel(nil), rels...)
	for n := t.Int(1, 4); n > 0; n-- {
		if len(rels) == 0 || t.Chance(1, 5) {
			rels = append(rels, oox.Rel{ID: "rId" + pbt.Pick(t, "1", "2", "18446744073709551615", "9223372036854775807", "007"), Type: pbt.Pick(t, oox.RImg, oox.RLnk), Target: pbt.Pick(t, "", "media/image1.png", "../media/x.png", "media", "word/media/image1.png", "media/../document.xml")})
			continue
		}
		r := &rels[t.Int(0, len(rels)-1)]
		switch t.Int(0, 5) {
		case 0:
			r.ID = "rId" + pbt.Pick(t, "", "0", "-1", "18446744073709551615", "99999999999999999999", "x", "1", "2")
		case 1:
			r.ID = pbt.Pick(t, oddValues...)
		case 2:
			r.Target = pbt.Pick(t, oddValues...)
		case 3:
			r.Type = pbt.Pick(t, "", oox.RImg, oox.RLnk)
		case 4:
			*r = rels[t.Int(0, len(rels)-1)]
		case 5:
			*r = rels[len(rels)-1]
			rels = rels[:len(rels)-1]
		}
	}
	return rels
}

// damaged makes a package with damage in its parts.
func damaged(t *pbt.T) []byte {
	g := docgen.New(t)
	doc := g.Document()
	style := &docgen.Style{}
	if t.Chance(1, 4) {
		style = docgen.RandomStyle(t)
	}
	kind := t.Weighted(5, 3, 2, 1)
	if kind == 0 || kind == 3 {
		mutateTree(t, doc, t.Int(1, 1+t.Size/8))
	}
	p := g.Build(doc, style, t.Chance(1, 3))
	var parts []docgen.Part
	for _, x := range p.Parts {
		switch {
		case x.Name == oox.DocPart && (kind == 1 || kind == 3 && t.Bool()):
			x.Data = mutateBytes(t, x.Data, t.Int(1, 6))
			t.Logf("document.xml damaged: %s", x.Data)
		case x.Name == oox.RelsPart && (kind == 2 || kind == 3 && t.Bool()):
			if t.Chance(1, 3) {
				x.Data = mutateBytes(t, x.Data, t.Int(1, 4))
			} else {
				x.Data = docgen.RelsXML(oddRels(t, g.Rels))
			}
			t.Logf("rels damaged: %s", x.Data)
		case strings.HasPrefix(x.Name, "word/media/") && kind >= 2 && t.Chance(1, 3):
			t.Logf("%s left out", x.Name)
			continue
		case x.Name == oox.CTPart && t.Chance(1, 10):
			x.Data = mutateBytes(t, x.Data, t.Int(1, 4))
			t.Logf("types damaged: %s", x.Data)
		}
		if (x.Name == oox.RelsPart || x.Name == oox.DocPart || x.Name == oox.CTPart) && t.Chance(1, 40) {
			t.Logf("%s left out", x.Name)
			continue
		}
		parts = append(parts, x)
		if t.Chance(1, 100) {
			parts = append(parts, x) // twice
		}
	}
	return docgen.WriteZip(parts, t.Chance(1, 4), t.Chance(1, 10))
}

// missing makes a package with a small document in which elements and attributes
// are missing, here and there or all of a name.
func missing(t *pbt.T) []byte {
	g := docgen.New(t)
	body := docgen.El("w:body")
	for k := 0; k == 0 || t.More(k, 4, 1); k++ {
		if t.Chance(1, 5) {
			body.Kids = append(body.Kids, g.Table())
			continue
		}
		p := mixedParagraph(t, g)
		r := docgen.El("w:r")
		for n := t.Int(1, 3); n > 0; n-- {
			r.Kids = append(r.Kids, g.DrawingIn())
		}
		p.Kids = append(p.Kids, r)
		body.Kids = append(body.Kids, p)
	}
	names := map[string]bool{}
	var list []string
	var collect func(x *xt.Node)
	collect = func(x *xt.Node) {
		for _, k := range x.Kids {
			if k.Local != "" && !names[k.Local] {
				names[k.Local] = true
				list = append(list, k.Local)
			}
			collect(k)
		}
	}
	collect(body)
	gone := map[string]bool{}
	rate, attrs := 0, 0
	switch t.Int(0, 2) {
	case 0: // all of a name
		for n := t.Int(1, 2); n > 0 && len(list) > 0; n-- {
			l := pbt.Pick(t, list...)
			gone[l] = true
			t.Logf("without %s", l)
		}
	case 1: // here and there
		rate = pbt.Pick(t, 3, 8, 20, 40)
	default:
		rate, attrs = pbt.Pick(t, 5, 10, 40), pbt.Pick(t, 2, 5, 20)
	}
	var cut func(x *xt.Node, depth int)
	cut = func(x *xt.Node, depth int) {
		var kids []*xt.Node
		for _, k := range x.Kids {
			if k.Local != "" && depth > 0 && (gone[k.Local] || rate > 0 && t.Chance(1, rate)) {
				if rate > 0 {
					t.Logf("without a %s", k.Local)
				}
				continue
			}
			cut(k, depth+1)
			kids = append(kids, k)
		}
		x.Kids = kids
		if attrs > 0 {
			var as []xt.Attr
			for _, a := range x.Attrs {
				if !t.Chance(1, attrs) {
					as = append(as, a)
				}
			}
			x.Attrs = as
		}
	}
	cut(body, 0)
	doc := docgen.El("w:document")
	doc.Kids = append(doc.Kids, body)
	return docgen.WriteZip(g.Build(doc, &docgen.Style{}, false).Parts, false, false)
}
