package props

import (
	"fmt"
	"path"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C04",
		Level: "exploration",
		Rule:  "a random history of building, parsing, saving, appending, splitting, filtering and merging over several documents; every document is saved and its package checked; non-trivial: the package refers to at least one picture and one link",
		Subs: []pbt.Sub{
			{Name: "built", Quick: 1200, Fn: c04built},
			{Name: "history", Quick: 1200, Weight: 2, Fn: c04history},
		},
	})
}

// validate checks a saved package by itself. input tells for which internal targets
// the library is not responsible.
func validate(t *pbt.T, data []byte, input map[string]bool) *oox.Pkg {
	p := open(t, data)
	// every prefix is declared, names are legal: the reader has seen to that for the
	// main document and its relationships
	root, err := xt.Parse(p.Parts[oox.RelsPart])
	if err != nil {
		t.Failf("rels", "%v", err)
	}
	if root.NS != oox.REL {
		t.Failf("rels", "the relationships part has the namespace %q", root.NS)
	}
	for _, r := range p.Rels {
		if r.ID == "" || r.Type == "" || r.Target == "" {
			t.Failf("rels", "incomplete relationship %+v", r)
		}
		if r.Mode == "External" || input[r.Target] {
			continue
		}
		if _, ok := p.Parts[oox.Resolve(r.Target)]; !ok {
			t.Failf("missing-part", "relationship %+v leads to no part of the package", r)
		}
	}
	use := func(n *xt.Node, id, typ string) {
		r, ok := p.ByID[id]
		if !ok {
			t.Failf("dangling", "%s refers to relationship %q, which is not defined", n.Local, id)
		}
		if r.Type != typ {
			t.Failf("wrong-type", "%s refers to relationship %+v, which is not of type %s", n.Local, r, typ)
		}
	}
	body := p.Doc.Child(oox.W, "body")
	if body == nil {
		t.Failf("no-body", "the main document has no body")
	}
	p.Doc.Walk(func(n *xt.Node) {
		for _, a := range n.Attrs {
			if a.NS == oox.R {
				switch {
				case n.Local == "blip" && a.Local == "embed":
					use(n, a.Val, oox.RImg)
				case n.Local == "hyperlink" && a.Local == "id":
					use(n, a.Val, oox.RLnk)
				default:
					t.Failf("unexpected-ref", "%s has a reference %s", n.Local, a.Local)
				}
			}
		}
	})
	ct, ok := p.Parts[oox.CTPart]
	if !ok {
		t.Failf("no-types", "there is no list of content types")
	}
	ts, err := types(ct)
	if err != nil {
		t.Failf("types", "the content-type list: %v", err)
	}
	for _, k := range ambiguousTypes(ct) {
		t.Failf("types", "there are two content types for %s", k) // ISO/IEC 29500-2, 10.1.2.2
	}
	for _, n := range p.Names {
		for _, seg := range strings.Split(strings.TrimSuffix(n, "/"), "/") {
			if seg == "" || strings.HasSuffix(seg, ".") {
				t.Failf("part-name", "the part name %q is not allowed", n) // ISO/IEC 29500-2, 9.1.1
			}
		}
		if !strings.HasPrefix(n, "word/media/") {
			continue
		}
		if ts[strings.ToLower(path.Ext(n))] == "" && ts[strings.ToLower("/"+n)] == "" {
			t.Failf("no-type", "picture part %q has no content type", n)
		}
		typ, ok := ts[strings.ToLower("/"+n)]
		if !ok {
			typ = ts[strings.ToLower(path.Ext(n))]
		}
		if !pictureType(n, typ, p.Parts[n]) {
			t.Failf("wrong-picture-type", "picture part %q has the content type %q", n, typ)
		}
	}
	return p
}

// pictureType is whether the type suits the picture: generated input has the types
// image/EXTENSION and, for single parts, image/x-any.
func pictureType(name, typ string, data []byte) bool {
	ext := strings.ToLower(strings.TrimPrefix(path.Ext(name), "."))
	if ext == "" {
		for magic, f := range map[string]string{"\x89PNG": "png", "\xff\xd8": "jpeg", "GIF8": "gif", "BM": "bmp", "RIFF": "webp", "II*": "tiff", "MM\x00*": "tiff"} {
			if strings.HasPrefix(string(data), magic) {
				ext = f
			}
		}
	}
	switch {
	case typ == "image/x-any" || typ == docgen.PicType(ext) || typ == "image/"+ext && ext != "jpg":
		return true
	case ext == "jpg" || ext == "emf" || ext == "wmf":
		return false
	case ext == "png" || ext == "jpeg" || ext == "gif" || ext == "bmp" || ext == "webp" || ext == "tiff":
		return false
	}
	return strings.Contains(typ, "/")
}

func docPrIDs(p *oox.Pkg) []string {
	var ids []string
	p.Doc.Walk(func(n *xt.Node) {
		if n.NS == oox.WP && n.Local == "docPr" {
			v, _ := n.Attr("", "id")
			ids = append(ids, v)
		}
	})
	return ids
}

// uniqueIDs: identifiers which are not of a parsed drawing are unique.
func uniqueIDs(t *pbt.T, p *oox.Pkg, foreign map[string]int) {
	left := map[string]int{}
	for k, v := range foreign {
		left[k] = v
	}
	seen := map[string]bool{}
	for _, id := range docPrIDs(p) {
		if left[id] > 0 {
			left[id]--
			continue
		}
		if seen[id] {
			t.Failf("drawing-id", "two drawings have the id %q", id)
		}
		if foreign[id] > 0 {
			t.Failf("drawing-id", "an added drawing got the id %q of one that was there", id)
		}
		seen[id] = true
	}
}

func nontrivial(t *pbt.T, p *oox.Pkg) {
	pic, lnk := false, false
	p.Doc.Walk(func(n *xt.Node) {
		pic = pic || n.Local == "blip"
		lnk = lnk || n.Local == "hyperlink"
	})
	if pic && lnk {
		t.NonTrivial()
	}
}

func c04built(t *pbt.T) {
	b := newB(t)
	for round := 0; round < 2; round++ {
		n := t.Int(1, 5+t.Size/2)
		for i := 0; i < n; i++ {
			b.step()
		}
		data := save(t, b.d)
		p := validate(t, data, nil)
		uniqueIDs(t, p, nil)
		nontrivial(t, p)
		if t.Bool() {
			break
		}
		b.d = parse(t, data)
		b.names = false
		t.Logf("save and reopen")
	}
}

var drops = []string{"Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture"}
var kindNames = []string{"*docx.Paragraph", "*docx.Table", "*docx.SectPr", "*docx.Run", "*docx.Hyperlink", "*docx.Text", "*docx.Tab", "*docx.BarterRabbet", "*docx.Drawing"}

// c04history makes documents and puts them through everything there is.
func c04history(t *pbt.T) {
	type doc struct {
		d       *docx.Docx
		foreign map[string]int  // ids of drawings which were parsed
		input   map[string]bool // internal targets of the input
		pure    bool            // all ids were given by the library
	}
	var docs []*doc
	fresh := func() *doc {
		if t.Bool() {
			return &doc{d: withTemplate(docx.New()), pure: true}
		}
		if t.Chance(1, 6) {
			m := c23media(t)
			t.Logf("a document with %d media", len(m))
			return &doc{d: withTemplate(docx.LoadBodyItems(nil, m)), pure: true}
		}
		in := foreign(t, nil, t.Bool(), nil)
		o := open(t, in.Zip)
		x := &doc{d: parse(t, in.Zip), foreign: map[string]int{}, input: map[string]bool{}}
		for _, id := range docPrIDs(o) {
			x.foreign[id]++
		}
		for _, r := range o.Rels {
			if _, ok := o.Parts[oox.Resolve(r.Target)]; !ok {
				x.input[r.Target] = true
			}
		}
		return x
	}
	docs = append(docs, fresh())
	check := func(x *doc, what string) []byte {
		data := save(t, x.d)
		p := validate(t, data, x.input)
		uniqueIDs(t, p, x.foreign)
		nontrivial(t, p)
		return data
	}
	steps := t.Int(1, 3+t.Size/6)
	for i := 0; i < steps; i++ {
		k := t.Int(0, len(docs)-1)
		x := docs[k]
		switch t.Weighted(6, 3, 2, 2, 1, 1, 2) {
		case 0:
			b := wrapB(t, x.d, nil)
			b.Items = nil
			t.Logf("on document %d:", k)
			for j := t.Int(1, 6); j > 0; j-- {
				c04edit(b)
			}
		case 1:
			t.Logf("save and reopen %d", k)
			data := check(x, "")
			if !x.pure {
				x.foreign = map[string]int{}
				for _, id := range docPrIDs(open(t, data)) {
					x.foreign[id]++
				}
			}
			x.d = parse(t, data)
		case 2:
			j := t.Int(0, len(docs)-1)
			if bodySize(x.d) > 150 || bodySize(docs[j].d) > 150 {
				break
			}
			t.Logf("append %d to %d", j, k)
			x.d.AppendFile(docs[j].d)
		case 3:
			t.Logf("split %d", k)
			n := t.Int(1, 3)
			cnt := 0
			for i, s := range x.d.SplitByParagraph(func(*docx.Paragraph) bool { cnt++; return cnt%n == 0 }) {
				y := &doc{d: s, input: x.input, pure: x.pure}
				check(y, fmt.Sprintf("piece %d", i))
				if len(docs) < 4 {
					docs = append(docs, y)
				}
			}
		case 4:
			n := pbt.Pick(t, drops...)
			t.Logf("drop %s of %d", n, k)
			x.d.Document.Body.DropDrawingOf(n)
		case 5:
			t.Logf("keep some of %d", k)
			x.d.Document.Body.KeepElements("*docx.Paragraph", "*docx.Table")
			for _, it := range x.d.Document.Body.Items {
				if p, ok := it.(*docx.Paragraph); ok && t.Bool() {
					p.KeepElements("*docx.Run")
				}
			}
		case 6:
			t.Logf("merge text of %d", k)
			for i, it := range x.d.Document.Body.Items {
				if p, ok := it.(*docx.Paragraph); ok {
					np := p.MergeText(docx.MergeSamePropRuns)
					x.d.Document.Body.Items[i] = &np
				}
			}
		}
		if len(docs) < 3 && t.Chance(1, 4) {
			docs = append(docs, fresh())
		}
	}
	for k, x := range docs {
		t.Logf("check %d", k)
		check(x, "")
	}
}

func bodySize(d *docx.Docx) int { return len(d.Document.Body.Items) }

// c04edit adds something without a model of what is there.
func c04edit(b *B) {
	p := b.addPara()
	switch b.t.Int(0, 4) {
	case 0:
		b.addText(p)
	case 1:
		b.addLink(p)
	case 2:
		b.addPic(p)
	case 3:
		b.addShape(p)
	default:
		b.addTable(2, 2)
	}
}
