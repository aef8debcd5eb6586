package props

import (
	"path"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// world is a set of documents with their models and a history of operations on them.
type world struct {
	t     *pbt.T
	docs  []*B
	plain bool // no foreign packages
	// how often each kind of operation is chosen
	wEdit, wReopen, wAppend, wSplit, wMerge, wNew int
	tune                                          func(*B)
	gen                                           func(*docgen.G)
	// what happened
	Appends, Selfs, Splits, Reopens, Merges, Foreign int
	noDiffs                                          bool
	after                                            func(b *B, data []byte, p *oox.Pkg)
	maxItems                                         int
}

func newWorld(t *pbt.T) *world {
	return &world{t: t, wEdit: 8, wReopen: 2, wAppend: 3, wSplit: 2, wMerge: 1, wNew: 2, maxItems: 60}
}

func (w *world) add() *B {
	t := w.t
	var b *B
	if w.plain || t.Bool() {
		b = newB(t)
		b.names = false
	} else {
		g := docgen.New(t)
		if w.gen != nil {
			w.gen(g)
		}
		in := g.Build(g.Document(), nil, t.Chance(1, 4))
		o := open(t, in.Zip)
		b = wrapB(t, parse(t, in.Zip), o.Body(oox.Opt{Brief: true, NoNames: true}))
		w.Foreign++
	}
	if w.tune != nil {
		w.tune(b)
	}
	b.tag = string(rune('A'+len(w.docs)%26)) + ": "
	t.Logf("%snew document", b.tag)
	w.docs = append(w.docs, b)
	return b
}

func (w *world) pick() *B { return w.docs[w.t.Int(0, len(w.docs)-1)] }

// check a document against its model.
func (w *world) check(b *B) ([]byte, *oox.Pkg) {
	data := save(w.t, b.d)
	p := open(w.t, data)
	same(w.t, "content", "document "+b.tag, norm(b.Items, false), p.Body(oox.Opt{Brief: true, NoNames: true}))
	if w.after != nil {
		w.after(b, data, p)
	}
	return data, p
}

func full(p *oox.Pkg) []*oox.C { return p.Body(oox.Opt{NoNames: true}) }

func cloneItems(l []*oox.C) []*oox.C {
	out := make([]*oox.C, 0, len(l))
	for _, c := range l {
		out = append(out, c.Clone())
	}
	return out
}

// append src to dst, with all comparisons.
func (w *world) append(dst, src *B) {
	t := w.t
	dd, dp := w.check(dst)
	sd, sp := w.check(src)
	t.Logf("append %s to %s", src.tag, dst.tag)
	want := append(append([]*oox.C(nil), full(dp)...), full(sp)...)
	dst.d.AppendFile(src.d)
	dst.Items = append(dst.Items, cloneItems(src.Items)...)
	dst.shared, src.shared = true, true
	data, p := w.check(dst)
	same(t, "appended", "after appending", want, full(p))
	if dst != src {
		sameParts(t, "source-changed", "the appended document", sd, save(t, src.d))
		w.Appends++
	} else {
		w.Selfs++
	}
	// nothing else changes
	bp, ap := openZip(t, dd), openZip(t, data)
	samePassThrough(t, bp, ap, true)
	sameRels(t, dp, p)
}

func openZip(t *pbt.T, b []byte) *oox.Pkg {
	p, err := oox.OpenZip(b)
	if err != nil {
		t.Failf("broken-package", "%v", err)
	}
	return p
}

// pieces are the positions at which the pieces of a document begin.
func pieces(b *B, match map[*docx.Paragraph]bool) []int {
	var at []int
	for i, it := range b.d.Document.Body.Items {
		p, ok := it.(*docx.Paragraph)
		if i == 0 || ok && match[p] {
			at = append(at, i)
		}
	}
	return at
}

// split a document, with all comparisons; some pieces stay in the world.
func (w *world) split(b *B, rule docx.ParagraphSplitRule, match map[*docx.Paragraph]bool) []*B {
	t := w.t
	data, p := w.check(b)
	whole := full(p)
	at := pieces(b, match)
	if len(whole) != len(b.Items) {
		t.Failf("items", "%d items saved, %d in memory", len(whole), len(b.Items))
	}
	t.Logf("split %s at %v of %d", b.tag, at, len(b.Items))
	docs := b.d.SplitByParagraph(rule)
	if len(docs) != len(at) {
		t.Failf("pieces", "there are %d pieces, expected %d (beginning at %v)", len(docs), len(at), at)
	}
	sameParts(t, "source-changed", "the split document", data, save(t, b.d))
	b.shared = true
	var out []*B
	for i, d := range docs {
		hi := len(b.Items)
		if i+1 < len(at) {
			hi = at[i+1]
		}
		n := &B{t: t, d: d, ids: map[string]int{}, shared: true, Items: cloneItems(b.Items[at[i]:hi]), tag: b.tag[:1] + "/" + string(rune('0'+i%10)) + ": "}
		if w.tune != nil {
			w.tune(n)
		}
		_, np := w.check(n)
		same(t, "piece", "piece "+n.tag, whole[at[i]:hi], full(np))
		pieceParts(t, p, np)
		out = append(out, n)
	}
	w.Splits++
	return out
}

// pieceParts: everything that is not edited comes along.
func pieceParts(t *pbt.T, before, after *oox.Pkg) {
	for _, n := range before.Names {
		if n == oox.DocPart || n == oox.RelsPart || isMedia(n) {
			continue
		}
		got, ok := after.Parts[n]
		if !ok {
			t.Failf("piece-part", "part %q is not in the piece", n)
		}
		if strings.HasSuffix(n, ".rels") { // pictures of headers and others
			for _, x := range partTargets(n, got) {
				if pic, ok := before.Parts[x]; ok && isMedia(x) && string(pic) != string(after.Parts[x]) {
					t.Failf("piece-part", "%s leads to %s, which is another one in the piece", n, x)
				}
			}
		}
		if n == oox.CTPart {
			// formats the piece has no picture of may be missing, and those
			// whose pictures are all listed by name
			bm, _ := types(got)
			for _, x := range before.Names { // other pictures with the names of pictures of the original
				if isMedia(x) && string(before.Parts[x]) != string(after.Parts[x]) {
					x = strings.ToLower("/" + x)
					if am, _ := types(before.Parts[n]); am[x] != "" && bm[x] != "" && bm[x] != am[x] {
						return
					}
				}
			}
			sameTypesBut(t, before.Parts[n], got, func(k string) bool {
				for _, x := range after.Names {
					if !isMedia(x) {
						continue // the other parts have the types of the original, if any
					}
					x = strings.ToLower("/" + x)
					if _, ok := bm[x]; x == k || strings.HasSuffix(x, k) && !ok {
						return false
					}
				}
				return true
			})
			continue
		}
		if string(got) != string(before.Parts[n]) {
			t.Failf("piece-part", "part %q of the piece differs", n)
		}
	}
	for _, r := range before.Rels {
		if r.Type == oox.RImg || r.Type == oox.RLnk {
			continue
		}
		if after.ByID[r.ID] != r {
			t.Failf("piece-rel", "relationship %+v is %+v in the piece", r, after.ByID[r.ID])
		}
	}
}

func isMedia(n string) bool { return len(n) > 11 && n[:11] == "word/media/" }

// randomRule chooses separators at random.
func randomRule(t *pbt.T, b *B) (docx.ParagraphSplitRule, map[*docx.Paragraph]bool) {
	m := map[*docx.Paragraph]bool{}
	den := pbt.Pick(t, 4, 2, 1, 10)
	for _, it := range b.d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok && t.Draw(uint64(den)) == 0 {
			m[p] = true
		}
	}
	return func(p *docx.Paragraph) bool { return m[p] }, m
}

// flat is the sequence of what a paragraph shows, without the borders of runs.
func flat(c *oox.C, out []string) []string {
	switch c.Name {
	case "w:t":
		if n := len(out); n > 0 && strings.HasPrefix(out[n-1], "t:") {
			out[n-1] += c.Text
			return out
		}
		return append(out, "t:"+c.Text)
	case "drawing":
		return append(out, "d:"+c.String())
	case "w:hyperlink":
		out = append(out, "<link "+c.At["link"]+" "+c.At["w:anchor"])
		for _, k := range c.Kids {
			out = flat(k, out)
		}
		return append(out, ">")
	case "w:rPr", "w:pPr":
		return out
	case "w:tab", "w:br", "w:instrText":
		return append(out, "x:"+c.String())
	}
	for _, k := range c.Kids {
		out = flat(k, out)
	}
	return out
}

func flatAll(l []*oox.C) (out []string) {
	for _, c := range l {
		out = append(out, "="+c.Name)
		out = flat(c, out)
	}
	return
}

// merge the text of some paragraphs.
func (w *world) merge(b *B) {
	t := w.t
	_, p := w.check(b)
	before := flatAll(p.Body(oox.Opt{Brief: true, NoNames: true}))
	rule := docx.MergeAllRuns
	if t.Bool() {
		rule = docx.MergeSamePropRuns
	}
	t.Logf("merge text of %s", b.tag)
	for i, it := range b.d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok && t.Bool() {
			np := p.MergeText(rule)
			b.d.Document.Body.Items[i] = &np
		}
	}
	p2 := open(t, save(t, b.d))
	after := flatAll(p2.Body(oox.Opt{Brief: true, NoNames: true}))
	if a, z := join(before), join(after); a != z {
		t.Failf("merged", "after merging text: %s", oox.DiffText(a, z))
	}
	b.Items = nil
	for _, c := range p2.Body(oox.Opt{Brief: true, NoNames: true}) {
		b.Items = append(b.Items, conv(c.Clone()))
	}
	b.shared = true
	w.Merges++
}

func join(l []string) string {
	s := ""
	for _, x := range l {
		s += x + "\n"
	}
	return s
}

// run a history.
func (w *world) run(steps int) {
	t := w.t
	w.add()
	for i := 0; i < steps; i++ {
		b := w.pick()
		switch t.Weighted(w.wEdit, w.wReopen, w.wAppend, w.wSplit, w.wMerge, w.wNew) {
		case 0:
			if len(b.Items) > w.maxItems {
				break
			}
			for k := t.Int(1, 6); k > 0; k-- {
				b.step()
			}
			if t.Bool() {
				w.check(b)
			}
		case 1:
			w.check(b)
			b.reopen("document " + b.tag)
			w.check(b)
			w.Reopens++
		case 2:
			dst := w.pick()
			if len(b.Items)+len(dst.Items) > w.maxItems {
				break
			}
			w.append(dst, b)
		case 3:
			rule, m := randomRule(t, b)
			ps := w.split(b, rule, m)
			for _, n := range ps {
				if len(w.docs) < 5 && t.Bool() {
					w.docs = append(w.docs, n)
				}
			}
			if len(ps) > 0 && t.Bool() { // go on with a piece
				n := ps[t.Int(0, len(ps)-1)]
				n.reopen("piece")
				w.check(n)
				w.docs = append(w.docs, n)
			}
		case 4:
			w.merge(b)
		case 5:
			if len(w.docs) < 4 {
				w.add()
			}
		}
	}
	for _, b := range w.docs {
		w.check(b)
	}
}

// partTargets are the parts a list of relationships leads to.
func partTargets(name string, data []byte) (out []string) {
	root, err := xt.Parse(data)
	if err != nil {
		return nil
	}
	dir := path.Dir(path.Dir(name))
	for _, e := range root.Elems() {
		tgt, _ := e.Attr("", "Target")
		if m, _ := e.Attr("", "TargetMode"); m == "External" || e.Local != "Relationship" {
			continue
		}
		if !path.IsAbs(tgt) {
			tgt = path.Join("/", dir, tgt)
		}
		out = append(out, path.Clean(tgt)[1:])
	}
	return
}
