package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C14",
		Level: "exploration",
		Rule:  "the paragraphs (also of cells) of a generated document are merged with a generated rule (all, same, same of named properties, never, or an arbitrary relation between properties); the saved result is compared with an independent model of merging; non-trivial: at least one run was joined and one was not, or something other than text is in a joined run",
		Subs: []pbt.Sub{
			{Name: "mixed", Quick: 10000, Weight: 3, Fn: c14mixed},
			{Name: "document", Quick: 3000, Weight: 2, Fn: c14doc},
			large("large", 30, c14large),
			wideSub("wide", 80, c14wide),
		},
	})
}

// mixedParagraph has runs with few different properties and all kinds of children.
func mixedParagraph(t *pbt.T, g *docgen.G) *xt.Node {
	var pool []*xt.Node
	for k := t.Int(1, 3); k > 0; k-- {
		pool = append(pool, g.RPr())
	}
	p := docgen.El("w:p")
	if t.Chance(1, 4) {
		p.Kids = append(p.Kids, g.PPr())
	}
	for k := 0; k == 0 || t.More(k, 30, 5); k++ {
		r := docgen.El("w:r")
		switch t.Weighted(6, 2, 1) {
		case 0:
			r.Kids = append(r.Kids, pool[t.Int(0, len(pool)-1)].Clone())
		case 2:
			r.Kids = append(r.Kids, docgen.El("w:rPr"))
		}
		if t.Chance(1, 15) {
			x := docgen.El("w:instrText")
			x.Kids = append(x.Kids, &xt.Node{Text: docgen.Word(t)})
			r.Kids = append(r.Kids, x)
		}
		for j := 0; t.More(j, 6, 1); j++ {
			switch t.Weighted(8, 2, 2, 1, 1) {
			case 0:
				r.Kids = append(r.Kids, g.Text())
			case 1:
				r.Kids = append(r.Kids, docgen.El("w:tab"))
			case 2:
				r.Kids = append(r.Kids, docgen.El("w:br"))
			case 3:
				if !g.NoDrawing {
					r.Kids = append(r.Kids, g.DrawingIn())
				}
			case 4:
				r.Kids = append(r.Kids, docgen.El("w:t"))
			}
		}
		if t.Chance(1, 8) {
			h := g.Hyperlink()
			h.Kids = []*xt.Node{r}
			p.Kids = append(p.Kids, h)
			continue
		}
		p.Kids = append(p.Kids, r)
	}
	return p
}

// dump the exported state behind a value.
func dump(v any) string {
	var sb strings.Builder
	var f func(v reflect.Value, depth int)
	f = func(v reflect.Value, depth int) {
		if depth > 40 {
			sb.WriteString("…")
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				sb.WriteString("nil")
				return
			}
			if v.Kind() == reflect.Interface {
				sb.WriteString(v.Elem().Type().String())
			}
			f(v.Elem(), depth+1)
		case reflect.Struct:
			sb.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					sb.WriteString(v.Type().Field(i).Name)
					sb.WriteByte(':')
					f(v.Field(i), depth+1)
					sb.WriteByte(' ')
				}
			}
			sb.WriteByte('}')
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&sb, "%x", v.Bytes())
				return
			}
			sb.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				f(v.Index(i), depth+1)
				sb.WriteByte(' ')
			}
			sb.WriteByte(']')
		default:
			fmt.Fprintf(&sb, "%#v", v)
		}
	}
	f(reflect.ValueOf(v), 0)
	return sb.String()
}

// propsKey identifies the properties of a run.
func propsKey(r *docx.Run) string {
	if r == nil || r.RunProperties == nil {
		return dump(&docx.RunProperties{})
	}
	return dump(r.RunProperties)
}

var propNames = map[string]string{
	"Fonts": "w:rFonts", "Bold": "w:b", "ICs": "w:iCs", "Italic": "w:i", "Highlight": "w:highlight", "Color": "w:color",
	"Size": "w:sz", "SizeCs": "w:szCs", "Spacing": "w:spacing", "RunStyle": "w:rStyle", "Shade": "w:shd",
	"Kern": "w:kern", "Underline": "w:u", "VertAlign": "w:vertAlign", "Strike": "w:strike",
}

func sortedProps() (l []string) {
	for k := range propNames {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

// someProps chooses names of properties.
func someProps(t *pbt.T) (l []string) {
	all := sortedProps()
	for k := 0; t.More(k, 6, 2); k++ {
		l = append(l, all[t.Int(0, len(all)-1)])
	}
	return
}

// mergeRule chooses a rule.
func mergeRule(t *pbt.T) (string, docx.RunMergeRule) {
	switch t.Int(0, 5) {
	case 0:
		return "MergeAllRuns", docx.MergeAllRuns
	case 1, 2:
		return "MergeSamePropRuns", docx.MergeSamePropRuns
	case 3:
		n := someProps(t)
		return fmt.Sprintf("MergeSamePropRunsOf%v", n), docx.MergeSamePropRunsOf(n...)
	case 4: // any relation between properties
		seed := t.Draw(1 << 16)
		den := uint64(t.Int(1, 4))
		return fmt.Sprintf("relation %d/%d", seed, den), func(a, b *docx.Run) bool {
			h := uint64(14695981039346656037) ^ seed
			for _, c := range []byte(propsKey(a) + "|" + propsKey(b)) {
				h = (h ^ uint64(c)) * 1099511628211
			}
			return (h>>20)%(den+1) != 0
		}
	default:
		return "never", func(_, _ *docx.Run) bool { return false }
	}
}

// runOf the form runs are compared in: its properties and what it shows.
func runForm(c *oox.C) string {
	var out []string
	pr := "-"
	for _, k := range c.Kids {
		if k.Name == "w:rPr" {
			if len(k.Kids) > 0 {
				pr = k.String()
			}
			continue
		}
		out = flat(k, out)
	}
	return pr + join(noEmpty(out))
}

// spaces tells for each text of a saved run (adjacent ones are one) whether it begins or ends
// with white space which is shown.
func spaces(c *oox.C) (all []bool) {
	in, last := false, false
	for _, k := range c.Kids {
		switch {
		case k.Name == "w:rPr":
		case k.Name != "w:t":
			if in {
				all[len(all)-1] = all[len(all)-1] || last
			}
			in = false
		case k.Text == "":
		default:
			keep := k.At["xml:space"] == "preserve"
			first := strings.TrimLeft(k.Text, " \t\r\n") != k.Text
			last = keep && strings.TrimRight(k.Text, " \t\r\n") != k.Text
			if !in {
				all = append(all, keep && first)
			}
			in = true
		}
	}
	if in {
		all[len(all)-1] = all[len(all)-1] || last
	}
	return
}

// noEmpty drops empty texts.
func noEmpty(l []string) (out []string) {
	for _, x := range l {
		if x != "t:" {
			out = append(out, x)
		}
	}
	return
}

// mergeModel joins the runs of a saved paragraph as the rule says about those in memory.
func mergeModel(t *pbt.T, c *oox.C, p *docx.Paragraph, rule docx.RunMergeRule) (forms []string, white [][]bool, joined, kept, special int) {
	i := 0
	next := func() any {
		for i < len(p.Children) {
			i++
			switch x := p.Children[i-1].(type) {
			case *docx.Run, *docx.Hyperlink:
				return x
			}
		}
		t.Failf("items", "a paragraph in memory has fewer children than saved")
		return nil
	}
	var cur *oox.C
	var curRun *docx.Run
	flush := func() {
		if cur != nil {
			forms = append(forms, "run "+runForm(cur))
			white = append(white, spaces(cur))
		}
		cur, curRun = nil, nil
	}
	for _, k := range c.Kids {
		switch k.Name {
		case "w:pPr":
			forms = append(forms, k.String())
		case "w:r":
			r, ok := next().(*docx.Run)
			if !ok {
				t.Failf("items", "a link in memory is saved as a run")
			}
			if cur != nil && r.InstrText == "" && rule(curRun, r) {
				for _, x := range k.Kids {
					if x.Name != "w:rPr" {
						cur.Kids = append(cur.Kids, x.Clone())
						if x.Name != "w:t" {
							special++
						}
					}
				}
				joined++
				continue
			}
			flush()
			kept++
			cur, curRun = k.Clone(), r
		default:
			next()
			flush()
			forms = append(forms, "other "+k.String())
		}
	}
	flush()
	return
}

func c14mixed(t *pbt.T) {
	g := docgen.New(t)
	g.NoDrawing = t.Chance(2, 3)
	body := docgen.El("w:body")
	for k := 0; k == 0 || t.More(k, 3, 0); k++ {
		body.Kids = append(body.Kids, mixedParagraph(t, g))
	}
	in := g.Build(docgen.El("w:document", body), nil, false)
	c14check(t, parse(t, in.Zip))
}

func c14doc(t *pbt.T) {
	c14check(t, someDoc(t))
}

func c14check(t *pbt.T, d *docx.Docx) {
	name, rule := mergeRule(t)
	t.Logf("rule %s", name)
	before := save(t, d)
	p := open(t, before)
	opt := oox.Opt{}
	want := p.Body(opt)
	mem := paragraphs(d)
	var saved []*oox.C
	for _, c := range want {
		switch c.Name {
		case "w:p":
			saved = append(saved, c)
		case "w:tbl":
			for _, tr := range c.Kids {
				for _, tc := range tr.Kids {
					for _, k := range tc.Kids {
						if k.Name == "w:p" {
							saved = append(saved, k)
						}
					}
				}
			}
		}
	}
	if len(saved) != len(mem) {
		t.Discard() // nested tables
	}
	var exp [][]string
	var shown [][][]bool
	var merged []docx.Paragraph
	for i, m := range mem {
		forms, white, joined, kept, special := mergeModel(t, saved[i], m, rule)
		if joined > 0 && (kept > 1 || special > 0) {
			t.NonTrivial()
		}
		exp = append(exp, forms)
		shown = append(shown, white)
		st, txt := dump(m), m.String()
		np := m.MergeText(rule)
		if s := dump(m); s != st {
			t.Failf("original", "the original paragraph %d was modified", i)
		}
		sameStr(t, "plain-text", "plain text of the merged paragraph", txt, np.String())
		merged = append(merged, np)
	}
	sameParts(t, "original", "the document after merging copies", before, save(t, d))
	for i, m := range mem {
		*m = merged[i]
	}
	after := open(t, save(t, d))
	n := 0
	var each func(l []*oox.C)
	each = func(l []*oox.C) {
		for _, c := range l {
			switch c.Name {
			case "w:p":
				got, white, _, _, _ := mergeModel(t, c, mem[n], func(_, _ *docx.Run) bool { return false })
				sameStr(t, "merged", fmt.Sprintf("paragraph %d merged with rule %s", n, name), join(exp[n]), join(got))
				for i, r := range shown[n] {
					for j, keep := range r {
						if keep && !white[i][j] {
							t.Failf("white", "text %d of run %d of paragraph %d, merged with rule %s, begins or ends with white space that was shown and is not any more", j, i, n, name)
						}
					}
				}
				n++
			case "w:tbl":
				for _, tr := range c.Kids {
					for _, tc := range tr.Kids {
						for _, k := range tc.Kids {
							if k.Name == "w:p" {
								each([]*oox.C{k})
							}
						}
					}
				}
			}
		}
	}
	each(after.Body(opt))
	// nothing is left to be joined
	for i, m := range mem {
		var prev *docx.Run
		for _, c := range m.Children {
			r, ok := c.(*docx.Run)
			if ok && prev != nil && r.InstrText == "" && rule(prev, r) {
				t.Failf("left", "paragraph %d still has adjacent runs for which rule %s holds", i, name)
			}
			prev = r
		}
		again := m.MergeText(rule)
		sameStr(t, "idempotent", "merging again", dump(m), dump(&again))
	}
}
