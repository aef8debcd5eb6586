// Package props states the properties of go-docx as generated checks.
package props

import (
	"bytes"
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
)

// Scratch is a directory the checks may write to.
var Scratch string

var all []*pbt.Prop

func register(p *pbt.Prop) { all = append(all, p) }

// Find a property by its id.
func Find(id string) *pbt.Prop {
	for _, p := range all {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// save writes a document to memory.
func save(t *pbt.T, d *docx.Docx) []byte {
	var b bytes.Buffer
	if _, err := d.WriteTo(&b); err != nil {
		t.Failf("save-error", "WriteTo: %v", err)
	}
	return b.Bytes()
}

// parse reads a package which must be accepted.
func parse(t *pbt.T, data []byte) *docx.Docx {
	d, err := docx.Parse(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		t.Failf("parse-error", "Parse: %v", err)
	}
	return d
}

// open reads a saved package independently of the library.
func open(t *pbt.T, data []byte) *oox.Pkg {
	p, err := oox.Open(data)
	if err != nil {
		t.Failf("broken-package", "the saved package cannot be read: %v", err)
	}
	return p
}

// same compares canonical bodies.
func same(t *pbt.T, kind, what string, want, got []*oox.C) {
	if d := oox.Diff(want, got); d != "" {
		t.Failf(kind, "%s: %s", what, d)
	}
}

func sameStr(t *pbt.T, kind, what, want, got string) {
	if want != got {
		t.Failf(kind, "%s: expected %q, got %q", what, want, got)
	}
}

// norm brings a list of expected items into the form of saved ones.
func norm(items []*oox.C, names bool) []*oox.C {
	var out []*oox.C
	for _, c := range items {
		n := c.Norm()
		if !names {
			n = n.Strip()
		}
		out = append(out, n)
	}
	return out
}

// plainPara is what a paragraph looks like as plain text.
func plainPara(p *oox.C) string {
	var sb strings.Builder
	for _, k := range p.Kids {
		switch k.Name {
		case "w:r":
			plainRun(&sb, k)
		case "w:hyperlink":
			var cs strings.Builder
			for _, r := range k.Kids {
				if r.Name != "w:r" {
					continue
				}
				for _, x := range r.Kids {
					if x.Name == "w:instrText" {
						cs.WriteString(x.Text)
					}
				}
				plainRun(&cs, r)
			}
			tgt := k.At["link"]
			if i := strings.IndexByte(tgt, '|'); i >= 0 {
				tgt = tgt[i+1:]
			}
			if _, ok := k.At["link"]; !ok {
				tgt = k.At["w:anchor"]
			}
			fmt.Fprintf(&sb, "[%s](%s)", cs.String(), tgt)
		}
	}
	return sb.String()
}

func plainRun(sb *strings.Builder, r *oox.C) {
	for _, k := range r.Kids {
		switch k.Name {
		case "w:t":
			sb.WriteString(k.Text)
		case "w:tab":
			sb.WriteByte('\t')
		case "w:br":
			sb.WriteByte('\n')
		case "drawing":
			sb.WriteString(plainDrawing(k))
		}
	}
}

func plainDrawing(d *oox.C) string {
	pre := "inln"
	switch d.At["mode"] {
	case "anchor":
		pre = "anch"
	case "none":
		return ""
	}
	switch d.At["kind"] {
	case "pic":
		return "![" + pre + "im " + d.At["name"] + "](" + d.At["media"] + ")"
	case "shape":
		return "![" + pre + "sp " + d.At["name"] + "](" + d.At["prst"] + ")"
	case "wpc:wpc":
		return "![" + pre + "cv " + d.At["name"] + "]()"
	}
	return "![" + pre + "?](unknown)"
}

// plainTable is what a table looks like as plain text: the text of the first
// paragraph of every cell, row by row.
func plainTable(tb *oox.C) string {
	var rows []*oox.C
	for _, r := range tb.Kids {
		if r.Name == "w:tr" {
			rows = append(rows, r)
		}
	}
	if len(rows) == 0 || countKids(rows[0], "w:tc") == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("| ")
	for _, c := range rows[0].Kids {
		if c.Name == "w:tc" {
			sb.WriteString(" :----: |")
		}
	}
	for _, r := range rows {
		sb.WriteString("\n|")
		for _, c := range r.Kids {
			if c.Name != "w:tc" {
				continue
			}
			var p *oox.C
			for _, k := range c.Kids {
				if k.Name == "w:p" {
					p = k
					break
				}
			}
			sb.WriteByte(' ')
			n := 0
			if p != nil {
				for _, k := range p.Kids {
					if k.Name != "w:pPr" {
						n++
					}
				}
			}
			if n == 0 {
				sb.WriteString("      ")
			} else {
				sb.WriteString(plainPara(p))
			}
			sb.WriteString(" |")
		}
	}
	return sb.String()
}

// plainItem of a body item, "" for others than paragraphs and tables.
func plainItem(c *oox.C) string {
	switch c.Name {
	case "w:p":
		return plainPara(c)
	case "w:tbl":
		return plainTable(c)
	}
	return ""
}

// stringItem is the plain text the library gives.
func stringItem(it any) string {
	switch x := it.(type) {
	case *docx.Paragraph:
		return x.String()
	case *docx.Table:
		return x.String()
	}
	return ""
}

func kindItem(it any) string {
	switch it.(type) {
	case *docx.Paragraph:
		return "w:p"
	case *docx.Table:
		return "w:tbl"
	case *docx.SectPr:
		return "w:sectPr"
	}
	return fmt.Sprintf("%T", it)
}

// checkPlain compares kinds and plain text of the items held in memory with expected ones.
// Without names, items with drawings are only compared by kind.
func checkPlain(t *pbt.T, what string, items []*oox.C, d *docx.Docx, names bool) {
	if len(items) != len(d.Document.Body.Items) {
		t.Failf("items", "%s: expected %d body items, got %d", what, len(items), len(d.Document.Body.Items))
	}
	for i, c := range items {
		it := d.Document.Body.Items[i]
		if kindItem(it) != c.Name {
			t.Failf("items", "%s: item %d is %s, expected %s", what, i, kindItem(it), c.Name)
		}
		if !names && hasDrawing(c) {
			continue
		}
		if w, g := plainItem(c), stringItem(it); w != g {
			t.Failf("plain-text", "%s: plain text of item %d (%s):\n expected %q\n      got %q", what, i, c.Name, w, g)
		}
	}
}

// wellKnown template of documents that are not parsed.
func withTemplate(d *docx.Docx) *docx.Docx { return d.WithDefaultTheme() }

func foreign(t *pbt.T, style *docgen.Style, extra bool, tune func(*docgen.G)) *docgen.Package {
	g := docgen.New(t)
	if tune != nil {
		tune(g)
	}
	doc := g.Document()
	return g.Build(doc, style, extra)
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func hasDrawing(c *oox.C) bool {
	if c.Name == "drawing" || c.Name == "w:drawing" {
		return true
	}
	for _, k := range c.Kids {
		if hasDrawing(k) {
			return true
		}
	}
	return false
}

func countKids(c *oox.C, name string) (n int) {
	for _, k := range c.Kids {
		if k.Name == name {
			n++
		}
	}
	return
}
