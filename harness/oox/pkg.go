// Package oox reads saved packages independently of the library and brings main
// documents into a canonical form which can be compared.
package oox

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif/xt"
)

// namespaces
const (
	W    = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
	R    = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	WP   = "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"
	A    = "http://schemas.openxmlformats.org/drawingml/2006/main"
	PIC  = "http://schemas.openxmlformats.org/drawingml/2006/picture"
	WPS  = "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
	WPC  = "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"
	WPG  = "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"
	MC   = "http://schemas.openxmlformats.org/markup-compatibility/2006"
	REL  = "http://schemas.openxmlformats.org/package/2006/relationships"
	CT   = "http://schemas.openxmlformats.org/package/2006/content-types"
	RImg = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image"
	RLnk = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"
)

// Names of the generated parts.
const (
	DocPart  = "word/document.xml"
	RelsPart = "word/_rels/document.xml.rels"
	CTPart   = "[Content_Types].xml"
)

// Rel is a relationship.
type Rel struct{ ID, Type, Target, Mode string }

// Pkg is an opened package.
type Pkg struct {
	Names []string
	Parts map[string][]byte
	Rels  []Rel
	ByID  map[string]Rel
	Doc   *xt.Node
}

// OpenZip reads all parts and verifies their checksums.
func OpenZip(data []byte) (*Pkg, error) {
	zr, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		return nil, fmt.Errorf("not a zip: %w", err)
	}
	p := &Pkg{Parts: map[string][]byte{}, ByID: map[string]Rel{}}
	for _, f := range zr.File {
		if _, ok := p.Parts[f.Name]; ok {
			return nil, fmt.Errorf("part %q occurs twice", f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		b, err := io.ReadAll(r)
		if err != nil {
			return nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		p.Names = append(p.Names, f.Name)
		p.Parts[f.Name] = b
	}
	sort.Strings(p.Names)
	return p, nil
}

// Open reads a package with its main document and relationships.
func Open(data []byte) (*Pkg, error) {
	p, err := OpenZip(data)
	if err != nil {
		return nil, err
	}
	return p, p.Load()
}

// Load parses the main document and its relationships.
func (p *Pkg) Load() error {
	d, ok := p.Parts[DocPart]
	if !ok {
		return fmt.Errorf("no %s", DocPart)
	}
	root, err := xt.Parse(d)
	if err != nil {
		return fmt.Errorf("%s: %w", DocPart, err)
	}
	if root.NS != W || root.Local != "document" {
		return fmt.Errorf("%s: root is {%s}%s", DocPart, root.NS, root.Local)
	}
	p.Doc = root
	r, ok := p.Parts[RelsPart]
	if !ok {
		return nil // it has none
	}
	rels, err := ParseRels(r)
	if err != nil {
		return fmt.Errorf("%s: %w", RelsPart, err)
	}
	p.Rels = rels
	for _, r := range rels {
		if _, ok := p.ByID[r.ID]; ok {
			return fmt.Errorf("relationship %q defined twice", r.ID)
		}
		p.ByID[r.ID] = r
	}
	return nil
}

// ParseRels reads a relationships part; the namespace of the elements is not judged here.
func ParseRels(b []byte) ([]Rel, error) {
	root, err := xt.Parse(b)
	if err != nil {
		return nil, err
	}
	if root.Local != "Relationships" {
		return nil, fmt.Errorf("root is %s", root.Local)
	}
	var out []Rel
	for _, e := range root.Elems() {
		if e.Local != "Relationship" {
			continue
		}
		var r Rel
		r.ID, _ = e.Attr("", "Id")
		r.Type, _ = e.Attr("", "Type")
		r.Target, _ = e.Attr("", "Target")
		r.Mode, _ = e.Attr("", "TargetMode")
		out = append(out, r)
	}
	return out, nil
}

// Resolve a target of the main document to a part name.
func Resolve(target string) string {
	if !strings.HasPrefix(target, "/") {
		target = "/word/" + target
	}
	return path.Clean(target)[1:]
}

// Media finds the bytes behind a picture relationship.
func (p *Pkg) Media(id string) (name string, data []byte, err error) {
	r, ok := p.ByID[id]
	if !ok {
		return "", nil, fmt.Errorf("relationship %q not defined", id)
	}
	if r.Type != RImg {
		return "", nil, fmt.Errorf("relationship %q has type %q", id, r.Type)
	}
	if r.Mode == "External" {
		return "", nil, fmt.Errorf("relationship %q is external", id)
	}
	name = Resolve(r.Target)
	d, ok := p.Parts[name]
	if !ok {
		return name, nil, fmt.Errorf("relationship %q leads to missing part %q", id, name)
	}
	return name, d, nil
}

// Itoa is strconv.Itoa.
func Itoa(n int) string { return strconv.Itoa(n) }
