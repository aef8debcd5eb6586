package props

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C20",
		Level: "exploration",
		Rule:  "built and parsed documents are saved with generated templates (any folder name, files listed twice or not at all, files with the names of generated parts and pictures) from a counting file system, from a directory and from the built-in one, several times, with reading and changes of the template in between; non-trivial: the template has at least two files of which one is not part of every package, and the document is saved twice",
		Subs: []pbt.Sub{
			{Name: "template", Quick: 2500, Weight: 3, Fn: c20template},
			{Name: "pictures", Quick: 500, Fn: c20pictures},
			{Name: "directory", Quick: 200, Fn: c20dir},
			{Name: "built-in", Quick: 400, Fn: c20default},
			{Name: "closing", Quick: 600, Fn: c20closing},
			wideSub("large", 30, c20large),
		},
	})
}

// wantParts checks a package saved with a template.
func wantParts(t *pbt.T, pkg *oox.Pkg, pre string, list []string, files map[string][]byte, media map[string]int) {
	seen := map[string]bool{}
	want := map[string]bool{oox.DocPart: true, oox.RelsPart: true}
	for _, n := range list {
		want[n] = true
	}
	for _, n := range pkg.Names {
		if s := oox.Sum(pkg.Parts[n]); strings.HasPrefix(n, "word/media/") && media[s] > 0 {
			media[s]--
			seen[s] = true
			continue
		}
		if !want[n] {
			t.Failf("additional", "part %q belongs neither to the template nor to the document", n)
		}
		if n == oox.DocPart || n == oox.RelsPart {
			continue
		}
		w := files[pre+n]
		if n == oox.CTPart && !bytes.Equal(w, pkg.Parts[n]) {
			extendedTypes(t, pkg, w)
			continue
		}
		if !bytes.Equal(w, pkg.Parts[n]) {
			t.Failf("template-part", "part %q is not the template file: %s", n, oox.DiffText(string(w), string(pkg.Parts[n])))
		}
	}
	for n := range want {
		if _, ok := pkg.Parts[n]; !ok {
			t.Failf("missing", "part %q is missing", n)
		}
	}
	for s := range media {
		if seen[s] { // equal pictures may share a part
			continue
		}
		t.Failf("missing", "the picture %s is missing", s)
	}
}

// extendedTypes: the content-type list may only be extended by picture formats it lacks.
func extendedTypes(t *pbt.T, pkg *oox.Pkg, orig []byte) {
	a, err := xt.Parse(orig)
	if err != nil {
		t.Failf("template-part", "the content types, which are no XML, have been changed")
	}
	b, err := xt.Parse(pkg.Parts[oox.CTPart])
	if err != nil {
		t.Failf("template-part", "the content types are not XML any more: %v", err)
	}
	ts, _ := types(orig)
	exts := map[string]bool{}
	pics := map[string]bool{}
	for _, n := range pkg.Names {
		if strings.HasPrefix(n, "word/media/") {
			exts[strings.ToLower(strings.TrimPrefix(path.Ext(n), "."))] = true
			pics[strings.ToLower("/"+n)] = true
		}
	}
	key := func(n *xt.Node) string {
		s := n.Local
		for _, x := range []string{"Extension", "PartName", "ContentType"} {
			v, _ := n.Attr("", x)
			s += "|" + v
		}
		return s
	}
	had := map[string]bool{}
	left := map[string]int{}
	for _, n := range a.Elems() {
		left[key(n)]++
		if n.Local == "Default" {
			e, _ := n.Attr("", "Extension")
			had[strings.ToLower(e)] = true
		}
	}
	extra := map[string]bool{}
	for _, n := range b.Elems() {
		if left[key(n)] > 0 {
			left[key(n)]--
			continue
		}
		if extra[key(n)] {
			t.Failf("template-part", "the content types are extended twice by %s", key(n))
		}
		extra[key(n)] = true
		part, _ := n.Attr("", "PartName")
		if n.Local == "Override" && pics[strings.ToLower(part)] && ts[strings.ToLower(part)] == "" && ts[strings.ToLower(path.Ext(part))] == "" {
			continue // a picture without extension
		}
		e, _ := n.Attr("", "Extension")
		if typ, _ := n.Attr("", "ContentType"); n.Local == "Default" && !pictureType("x."+e, typ, nil) {
			t.Failf("template-part", "the type of pictures named .%s is given as %q", e, typ)
		}
		if n.Local != "Default" || !exts[strings.ToLower(e)] || had[strings.ToLower(e)] {
			t.Failf("template-part", "the content types are extended by %s", key(n))
		}
		had[strings.ToLower(e)] = true
	}
	for k, n := range left {
		if n > 0 {
			t.Failf("template-part", "the content types lack %s", k)
		}
	}
}

// useIt reads a document in any way.
func useIt(t *pbt.T, d *docx.Docx) {
	for k := t.Int(0, 3); k > 0; k-- {
		switch t.Int(0, 4) {
		case 0:
			_ = plainAll(d)
		case 1:
			_ = d.RangeRelationships(func(r *docx.Relationship) error {
				_, _ = d.ReferTarget(r.ID)
				_, _ = d.ReferID(r.Target)
				return nil
			})
		case 2:
			_ = d.Media("image1.png")
			_, _ = d.Read(make([]byte, 10))
		case 3:
			for _, p := range paragraphs(d) {
				_ = p.MergeText(docx.MergeSamePropRuns)
			}
		case 4:
			_ = d.SplitByParagraph(func(*docx.Paragraph) bool { return t.Bool() })
		}
	}
}

func (b *B) sums() map[string]int {
	m := map[string]int{}
	for _, x := range b.Added {
		m[oox.Sum(x)]++
	}
	return m
}

func c20template(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 4+t.Size/8); n > 0; n-- {
		b.step()
	}
	d := b.d
	sums := b.sums()
	if t.Chance(1, 4) { // a parsed document gets another template
		in := foreign(t, nil, true, func(g *docgen.G) { g.NoOutside = true }) // the template replaces all other parts
		d = parse(t, in.Zip)
		sums = map[string]int{}
		p := openZip(t, save(t, d))
		for _, n := range p.Names {
			if strings.HasPrefix(n, "word/media/") {
				sums[oox.Sum(p.Parts[n])]++
			}
		}
	}
	st := state(d)
	content := open(t, save(t, d)).Body(oox.Opt{})
	for round := t.Int(1, 2); round > 0; round-- {
		name, list, m := template(t)
		pre := ""
		if name != "" {
			pre = "xml/" + name + "/"
		}
		for k := t.Int(0, 3); k > 0; k-- {
			n := pbt.Pick(t, oox.DocPart, oox.RelsPart, "word/media/image1.png", "word/media/image5.jpeg", "word/media/x.bin", list[t.Int(0, len(list)-1)])
			if _, ok := m.files[pre+n]; !ok {
				m.files[pre+n] = []byte("template " + n)
			}
			list = append(list, n)
		}
		if t.Chance(1, 5) {
			m.files[pre+oox.CTPart] = []byte(pbt.Pick(t, "", "no xml", `<Types xmlns="`+oox.CT+`"/>`, `<c:Types xmlns:c="`+oox.CT+`"/>`, `<?xml version="1.0"?><c:Types xmlns:c="`+oox.CT+`"><c:Default Extension="PNG" ContentType="image/png"/></c:Types>`))
		}
		t.Logf("template %q: %q", name, list)
		files := map[string][]byte{}
		for k, v := range m.files {
			files[k] = append([]byte(nil), v...)
		}
		kept := append([]string(nil), list...)
		if d.UseTemplate(name, list, m) != d {
			t.Failf("chain", "UseTemplate gives another document")
		}
		var ref []byte
		for k := t.Int(1, 3); k > 0; k-- {
			data := save(t, d)
			if m.opened != m.closed {
				t.Failf("closed", "%d files of the template were opened, but %d closed", m.opened, m.closed)
			}
			for n := range m.asked {
				if !strings.HasPrefix(n, pre) {
					t.Failf("foreign-file", "the file %q of the file system was opened, which is none of the template", n)
				}
			}
			pkg := openZip(t, data)
			left := map[string]int{}
			for s, n := range sums {
				left[s] = n
			}
			if ref == nil {
				wantParts(t, pkg, pre, kept, files, left)
				if err := pkg.Load(); err != nil {
					t.Failf("broken-package", "the saved package cannot be read: %v", err)
				}
				same(t, "content", "saved with a template", content, pkg.Body(oox.Opt{}))
				ref = data
			} else {
				sameParts(t, "repeat", "saved again", ref, data)
				t.NonTrivial()
			}
			useIt(t, d)
		}
		if s := state(d); s != st {
			t.Failf("changed", "saving changed the document: %s", oox.DiffText(st, s))
		}
		for i := range list {
			if list[i] != kept[i] {
				t.Failf("changed", "saving changed the list of template files")
			}
		}
	}
}

// c20closing: files of the template are closed also when saving fails.
func c20closing(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 4); n > 0; n-- {
		b.step()
	}
	name, list, m := template(t)
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	d := b.d.UseTemplate(name, list, m)
	size := len(save(t, d))
	for k := t.Int(1, 4); k > 0; k-- {
		f := pre + list[t.Int(0, len(list)-1)]
		w := faultWriter{limit: -1, err: someFault(t)}
		m.failOpen, m.failRead, m.armed, m.after = "", "", true, 0
		m.failErr = pbt.Pick(t, errFault, fs.ErrPermission, fs.ErrNotExist, io.ErrUnexpectedEOF)
		switch t.Int(0, 3) {
		case 0:
			m.failOpen = f
			t.Logf("%q cannot be opened", f)
		case 1:
			m.failRead = f
			t.Logf("%q cannot be read", f)
		case 2:
			w.limit, w.short = t.Int(0, size), t.Bool()
			w.once = w.short // taking nothing forever is no failure
			t.Logf("the destination takes %d of %d bytes", w.limit, size)
		case 3:
			w.at, w.once = t.Int(1, 20), t.Bool()
			t.Logf("write %d fails", w.at)
		}
		_, err := d.WriteTo(&w)
		m.armed = false
		t.Logf("saving gives %v", err != nil)
		if err != nil {
			t.NonTrivial()
		}
		if m.opened != m.closed {
			t.Failf("closed", "%d files of the template were opened, but %d closed", m.opened, m.closed)
		}
	}
}

// c20dir: the template lies in a directory.
func c20dir(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 4); n > 0; n-- {
		b.step()
	}
	name, list, m := template(t)
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	dir := filepath.Join(Scratch, "c20-"+strconv.FormatUint(t.Draw(1<<62), 36))
	defer os.RemoveAll(dir)
	for n, data := range m.files {
		f := filepath.Join(dir, filepath.FromSlash(n))
		if os.MkdirAll(filepath.Dir(f), 0o755) != nil || os.WriteFile(f, data, 0o644) != nil {
			t.Discard() // names which are folders of others
		}
	}
	d := b.d.UseTemplate(name, list, os.DirFS(dir))
	data := save(t, d)
	wantParts(t, open(t, data), pre, list, m.files, b.sums())
	useIt(t, d)
	sameParts(t, "repeat", "saved again", data, save(t, d))
	t.NonTrivial()
}

func c20default(t *pbt.T) {
	b := newB(t)
	for n := t.Int(0, 4+t.Size/8); n > 0; n-- {
		b.step()
	}
	files := map[string][]byte{}
	for _, n := range docx.DefaultTemplateFilesList {
		x, err := fs.ReadFile(docx.TemplateXMLFS, "xml/default/"+n)
		if err != nil {
			t.Failf("built-in", "%v", err)
		}
		files["xml/default/"+n] = x
	}
	data := save(t, b.d)
	wantParts(t, open(t, data), "xml/default/", docx.DefaultTemplateFilesList, files, b.sums())
	useIt(t, b.d)
	sameParts(t, "repeat", "saved again", data, save(t, b.d))
	t.NonTrivial()
}

// c20pictures: the template has pictures of its own, for headers and the like.
func c20pictures(t *pbt.T) {
	b := newB(t)
	name, list, m := template(t)
	pre := ""
	if name != "" {
		pre = "xml/" + name + "/"
	}
	var pics []string
	for k := 0; k == 0 || t.More(k, 5, 2); k++ {
		n := "word/media/" + pbt.Pick(t, "image", "image", "Image", "IMAGE") + fmt.Sprint(t.Int(1, 5)) + pbt.Pick(t, ".png", ".jpeg", ".PNG", ".gif")
		dup := false
		for _, x := range pics {
			dup = dup || strings.EqualFold(x, n)
		}
		if dup {
			continue
		}
		pics = append(pics, n)
		list = append(list, n)
		m.files[pre+n] = []byte("template " + n)
	}
	t.Logf("pictures of the template: %q", pics)
	b.d.UseTemplate(name, list, m)
	for k := t.Int(1, 6); k > 0; k-- {
		b.step()
		if t.Bool() {
			b.addPic(b.pickPara())
		}
	}
	if len(b.Added) > 0 {
		t.NonTrivial()
	}
	look := func(what string, d *docx.Docx) *oox.Pkg {
		pkg := openZip(t, save(t, d))
		for _, n := range list {
			if n == oox.CTPart || n == oox.DocPart || n == oox.RelsPart {
				continue
			}
			if !bytes.Equal(pkg.Parts[n], m.files[pre+n]) {
				t.Failf("template-part", "%s: part %q is not the file of the template: %s", what, n, oox.DiffText(string(m.files[pre+n]), string(pkg.Parts[n])))
			}
		}
		for _, n := range pkg.Names {
			for _, x := range pics {
				if n != x && strings.EqualFold(n, x) {
					t.Failf("same-name", "%s: the parts %q and %q have the same name", what, n, x)
				}
			}
		}
		if err := pkg.Load(); err != nil {
			t.Failf("broken-package", "%s: the saved package cannot be read: %v", what, err)
		}
		return pkg
	}
	want := join(pictureSums(b.Items))
	sameStr(t, "pictures", "pictures of the document", want, join(pictureSums(look("document", b.d).Body(oox.Opt{Brief: true}))))
	got := ""
	for i, d := range b.d.SplitByParagraph(func(*docx.Paragraph) bool { return t.Bool() }) {
		got += join(pictureSums(look(fmt.Sprintf("piece %d", i), d).Body(oox.Opt{Brief: true})))
	}
	sameStr(t, "pictures", "pictures of the pieces", want, got)
	to := docx.New().UseTemplate(name, list, m)
	to.AppendFile(b.d)
	sameStr(t, "pictures", "pictures appended", want, join(pictureSums(look("appended", to).Body(oox.Opt{Brief: true}))))
}
