package docgen

import (
	"archive/zip"
	"bytes"
	"fmt"
	"hash/crc32"
	"io"
	"strings"

	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// Part of a package.
type Part struct {
	Name string
	Data []byte
}

// RelsXML writes a relationships part.
func RelsXML(rels []oox.Rel) []byte {
	var sb strings.Builder
	sb.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n")
	sb.WriteString(`<Relationships xmlns="` + oox.REL + `">`)
	for _, r := range rels {
		fmt.Fprintf(&sb, `<Relationship Id="%s" Type="%s" Target="%s"`, escAttr(r.ID, false), escAttr(r.Type, false), escAttr(r.Target, false))
		if r.Mode != "" {
			fmt.Fprintf(&sb, ` TargetMode="%s"`, escAttr(r.Mode, false))
		}
		sb.WriteString(`/>`)
	}
	sb.WriteString(`</Relationships>`)
	return []byte(sb.String())
}

// Package is a generated package.
type Package struct {
	G     *G
	Doc   *xt.Node
	Parts []Part // everything, in order
	Zip   []byte
}

// Part data by name.
func (p *Package) Part(name string) []byte {
	for _, x := range p.Parts {
		if x.Name == name {
			return x.Data
		}
	}
	return nil
}

const relBase = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"

// Build puts a package around a main document. extra adds arbitrary further parts.
func (g *G) Build(doc *xt.Node, style *Style, extra bool) *Package {
	t := g.T
	if style == nil {
		style = &Style{}
	}
	p := &Package{G: g, Doc: doc}
	docXML := style.Marshal(doc)
	// relationships to other parts
	type other struct{ typ, target, part string }
	others := []other{{"styles", "styles.xml", "word/styles.xml"}, {"fontTable", "fontTable.xml", "word/fontTable.xml"}}
	rels := append([]oox.Rel(nil), g.Rels...)
	var parts []Part
	parts = append(parts, Part{"_rels/.rels", []byte(`<?xml version="1.0"?><Relationships xmlns="` + oox.REL + `"><Relationship Id="rId1" Type="` + relBase + `officeDocument" Target="word/document.xml"/></Relationships>`)})
	if extra {
		others = append(others, other{"theme", "theme/theme1.xml", "word/theme/theme1.xml"}, other{"settings", "settings.xml", "word/settings.xml"}, other{"header", "header1.xml", "word/header1.xml"}, other{"customXml", "../customXml/item1.xml", "customXml/item1.xml"})
	}
	for _, o := range others {
		if t.Chance(3, 4) {
			mode := ""
			if extra && t.Chance(1, 8) {
				mode = "Internal"
			}
			rels = append(rels, oox.Rel{ID: g.Rid(), Type: relBase + o.typ, Target: o.target, Mode: mode})
			parts = append(parts, Part{o.part, []byte(fmt.Sprintf(`<?xml version="1.0"?><x n="%d"/>`, t.Int(0, 99)))})
		}
	}
	if extra {
		seen := map[string]bool{}
		for _, p := range g.Outside {
			seen[p.Name] = true
		}
		for k := 0; t.More(k, 12, 2); k++ {
			var name string
			switch t.Weighted(3, 2, 2, 1, 1, 3) {
			case 5: // names like those of the parts that are read
				name = pbt.Pick(t, "word/glossary/document.xml", "word/glossary/_rels/document.xml.rels", "word/glossary/media/image1.png", "customXml/word/document.xml", "customXml/_rels/document.xml.rels", "_rels/document.xml.rels", "document.xml", "document.xml.rels", "media/image1.png", "word/media2/image1.png", "word/mediaplayer.bin", "xword/media/a.png", "x/word/media/a.png", "word/document.xml.bak", "word/document2.xml", "word/_rels/document2.xml.rels", "word/_rels/document.xml.rels.bak", "word/_rels/header1.xml.rels", "word/diagrams/_rels/document.xml.rels", "word/embeddings/media/x.docx", "docProps/document.xml", "word/document.xmlx/a", "word/word/document.xml", "word/word/media/a.png")
			case 0:
				name = "word/" + Word(t) + ".xml"
			case 1:
				name = "docProps/" + Word(t) + ".xml"
			case 2:
				name = "word/_rels/" + Word(t) + ".xml.rels"
			case 3:
				name = "customXml/" + Word(t) + "/" + Word(t) + ".bin"
			default:
				name = Word(t) + pbt.Pick(t, "", " x", "é", ".docx", "%20")
			}
			if seen[name] {
				continue
			}
			dup := false
			for _, p := range parts {
				dup = dup || p.Name == name
			}
			if dup {
				continue
			}
			seen[name] = true
			parts = append(parts, Part{name, Bytes(t)})
		}
		for k := 0; t.More(k, 3, 1); k++ { // media nobody refers to
			g.NewMedia()
		}
		for k, n := range []string{"word/_rels/header1.xml.rels", "word/charts/_rels/chart1.xml.rels", "docProps/_rels/app.xml.rels"} { // or other parts do
			if seen[n] || !t.Chance(1, 3+k*3) {
				continue
			}
			up := []string{"", "../", "../word/"}[k]
			var pr []oox.Rel
			for i := 0; t.More(i, 4, 2); i++ {
				r := oox.Rel{ID: "rId" + itoa(i+1), Type: oox.RImg}
				if len(g.Media) == 0 || t.Chance(1, 3) {
					g.NewMedia()
				}
				m := "media/" + g.Media[t.Int(0, len(g.Media)-1)].Name
				r.Target = pbt.Pick(t, up, up, up+"./", "/word/") + m
				if t.Chance(1, 8) {
					r = oox.Rel{ID: r.ID, Type: oox.RLnk, Target: URL(t), Mode: "External"}
				}
				pr = append(pr, r)
			}
			g.feat("part-media")
			parts = append(parts, Part{n, RelsXML(pr)})
		}
		if t.Chance(1, 4) { // relationships which are not used
			rels = append(rels, oox.Rel{ID: g.Rid(), Type: oox.RLnk, Target: URL(t), Mode: "External"})
		}
	}
	if t.Bool() { // order of relationships
		for i := len(rels) - 1; i > 0; i-- {
			j := t.Int(0, i)
			rels[i], rels[j] = rels[j], rels[i]
		}
	}
	p.G.Rels = rels
	// content types
	var ct strings.Builder
	ct.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?><Types xmlns="` + oox.CT + `"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/>`)
	ext := map[string]bool{}
	over := ""
	for _, m := range g.Media {
		base := m.Name[strings.LastIndexByte(m.Name, '/')+1:]
		if !strings.Contains(base, ".") || t.Chance(1, 8) {
			over += `<Override PartName="/word/media/` + m.Name + `" ContentType="image/x-any"/>`
			continue
		}
		e := m.Name[strings.LastIndexByte(m.Name, '.')+1:]
		if !ext[strings.ToLower(e)] {
			ext[strings.ToLower(e)] = true
			fmt.Fprintf(&ct, `<Default Extension="%s" ContentType="%s"/>`, e, PicType(e))
		}
	}
	for _, p := range g.Outside {
		e := p.Name[strings.LastIndexByte(p.Name, '.')+1:]
		if !ext[e] {
			ext[e] = true
			fmt.Fprintf(&ct, `<Default Extension="%s" ContentType="%s"/>`, e, PicType(e))
		}
		parts = append(parts, p)
	}
	ct.WriteString(`<Override PartName="/word/document.xml" ContentType="application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml"/>` + over + `</Types>`)
	parts = append([]Part{{oox.CTPart, []byte(ct.String())}}, parts...)
	parts = append(parts, Part{oox.DocPart, docXML})
	if len(rels) > 0 || !t.Chance(1, 2) { // a package without relationships may have no such part
		parts = append(parts, Part{oox.RelsPart, RelsXML(rels)})
	}
	for _, m := range g.Media {
		parts = append(parts, Part{"word/media/" + m.Name, m.Data})
	}
	if extra && t.Bool() {
		for i := len(parts) - 1; i > 0; i-- {
			j := t.Int(0, i)
			parts[i], parts[j] = parts[j], parts[i]
		}
	}
	p.Parts = parts
	folders := extra && t.Chance(1, 4)
	store := t.Chance(1, 3)
	p.Zip = WriteZip(parts, store, folders)
	if t.Logging() {
		t.Logf("document.xml: %s", docXML)
		for _, r := range rels {
			t.Logf("rel %+v", r)
		}
		for _, x := range parts {
			if x.Name != oox.DocPart && x.Name != oox.RelsPart {
				t.Logf("part %s %d bytes", x.Name, len(x.Data))
			}
		}
	}
	return p
}

// Bytes are arbitrary bytes.
func Bytes(t *pbt.T) []byte {
	switch t.Weighted(3, 2, 1) {
	case 0:
		b := make([]byte, t.Int(0, 12))
		for i := range b {
			b[i] = byte(t.Int(0, 255))
		}
		return b
	case 1:
		return []byte("<?xml version=\"1.0\"?>\r\n<a>" + Word(t) + "</a>\r\n")
	default:
		b := make([]byte, t.Int(0, 100000))
		x := uint32(t.Int(0, 1<<30))
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
		return b
	}
}

// WriteZip packs parts.
func WriteZip(parts []Part, store, folders bool) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	if folders {
		for _, f := range []string{"word/", "word/media/", "_rels/"} {
			zw.Create(f)
		}
	}
	for _, p := range parts {
		m := zip.Deflate
		if store {
			m = zip.Store
		}
		var w io.Writer
		var err error
		if store {
			h := &zip.FileHeader{Name: p.Name, Method: m, CRC32: crc32.ChecksumIEEE(p.Data), CompressedSize64: uint64(len(p.Data)), UncompressedSize64: uint64(len(p.Data))}
			w, err = zw.CreateRaw(h)
		} else {
			w, err = zw.CreateHeader(&zip.FileHeader{Name: p.Name, Method: m})
		}
		if err != nil {
			panic(err)
		}
		w.Write(p.Data)
	}
	zw.Close()
	return b.Bytes()
}

// PicType is the content type of pictures with that extension.
func PicType(ext string) string {
	switch ext = strings.ToLower(ext); ext {
	case "jpg":
		return "image/jpeg"
	case "emf", "wmf":
		return "image/x-" + ext
	}
	return "image/" + ext
}
