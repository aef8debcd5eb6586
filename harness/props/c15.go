package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C15",
		Level: "exploration",
		Rule:  "pairs of runs whose properties are equal, or differ in one attribute, one property or everything; parsed from generated markup (compared by an independent reader), built in memory (compared by reflection) or built and reopened; non-trivial: both runs have properties and at least one has two",
		Subs: []pbt.Sub{
			{Name: "markup", Quick: 10000, Weight: 2, Fn: c15markup},
			{Name: "memory", Quick: 80000, Weight: 2, Fn: c15memory},
			{Name: "reopened", Quick: 5000, Fn: c15reopened},
		},
	})
}

// verdict of a pair.
const (
	differ = iota
	equal
	unclear // spelled differently with the same meaning
)

func attrsOf(n *xt.Node) map[string]string {
	m := map[string]string{}
	for _, a := range n.Attrs {
		m[a.NS+" "+a.Local] = a.Val
	}
	return m
}

// compareProp compares one property element (nil if absent) as written and by meaning.
func compareProp(a, b *xt.Node, ca, cb *oox.C) int {
	if a == nil || b == nil {
		if a == b {
			return equal
		}
		return differ
	}
	if reflect.DeepEqual(attrsOf(a), attrsOf(b)) {
		return equal
	}
	if ca != nil && cb != nil && ca.String() == cb.String() {
		return unclear
	}
	// an empty attribute may count as none
	ma, mb := attrsOf(a), attrsOf(b)
	for _, m := range []map[string]string{ma, mb} {
		for k, v := range m {
			if v == "" {
				delete(m, k)
			}
		}
	}
	if reflect.DeepEqual(ma, mb) {
		return unclear
	}
	return differ
}

func propNode(r *xt.Node, name string) *xt.Node {
	pr := r.Child(oox.W, "rPr")
	if pr == nil {
		return nil
	}
	return pr.Child(oox.W, strings.TrimPrefix(name, "w:"))
}

func propC(r *oox.C, name string) *oox.C {
	for _, k := range r.Kids {
		if k.Name == "w:rPr" {
			for _, x := range k.Kids {
				if x.Name == name {
					return x
				}
			}
		}
	}
	return nil
}

func judge(t *pbt.T, want int, got bool, what string) {
	if want == equal && !got {
		t.Failf("refused", "%s: equal properties are not accepted", what)
	}
	if want == differ && got {
		t.Failf("accepted", "%s: different properties are accepted", what)
	}
}

// tweak changes the properties of a run slightly.
func tweak(t *pbt.T, g *docgen.G, pr *xt.Node) *xt.Node {
	n := pr.Clone()
	switch t.Int(0, 5) {
	case 0: // the same
	case 1: // other order
		for i := len(n.Kids) - 1; i > 0; i-- {
			j := t.Int(0, i)
			n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
		}
	case 2: // one less
		if len(n.Kids) > 0 {
			i := t.Int(0, len(n.Kids)-1)
			n.Kids = append(n.Kids[:i], n.Kids[i+1:]...)
		}
	case 3: // one more or replaced
		o := g.RPr()
		for _, k := range o.Kids[:1] {
			for i := range n.Kids {
				if n.Kids[i].Local == k.Local {
					n.Kids[i] = k
					return n
				}
			}
			n.Kids = append(n.Kids, k)
		}
	case 4: // one attribute
		if len(n.Kids) > 0 {
			k := n.Kids[t.Int(0, len(n.Kids)-1)]
			if len(k.Attrs) > 0 {
				i := t.Int(0, len(k.Attrs)-1)
				if t.Bool() && !(k.Local == "kern" || k.Local == "spacing") {
					k.Attrs[i].Val += "1"
				} else if k.Local != "spacing" && k.Local != "kern" && k.Local != "u" && k.Local != "highlight" {
					k.Attrs = append(k.Attrs[:i], k.Attrs[i+1:]...)
				}
			}
		}
	default:
		return g.RPr()
	}
	return n
}

func c15markup(t *pbt.T) {
	g := docgen.New(t)
	g.NoDrawing = true
	base := g.RPr()
	p := docgen.El("w:p")
	var nodes []*xt.Node
	for k := t.Int(2, 5); k > 0; k-- {
		r := docgen.El("w:r")
		switch t.Weighted(8, 1, 1) {
		case 0:
			r.Kids = append(r.Kids, tweak(t, g, base))
		case 1:
			r.Kids = append(r.Kids, docgen.El("w:rPr"))
		}
		for j := 0; t.More(j, 3, 1); j++ {
			r.Kids = append(r.Kids, g.Text())
		}
		p.Kids = append(p.Kids, r)
		nodes = append(nodes, r)
	}
	in := g.Build(docgen.El("w:document", docgen.El("w:body", p)), nil, false)
	canon := open(t, in.Zip).Body(oox.Opt{})
	d := parse(t, in.Zip)
	mem := paragraphs(d)
	if len(mem) != 1 || len(mem[0].Children) != len(nodes) {
		t.Failf("items", "the paragraph has not %d runs", len(nodes))
	}
	var cs []*oox.C
	for _, k := range canon[0].Kids {
		if k.Name == "w:r" {
			cs = append(cs, k)
		}
	}
	before := dump(mem[0])
	names := someProps(t)
	of := docx.MergeSamePropRunsOf(names...)
	t.Logf("names %v", names)
	for i := range nodes {
		for j := range nodes {
			a, b := mem[0].Children[i].(*docx.Run), mem[0].Children[j].(*docx.Run)
			all, some := equal, equal
			cmp := func(el string) int {
				return compareProp(propNode(nodes[i], el), propNode(nodes[j], el), propC(cs[i], el), propC(cs[j], el))
			}
			worst := func(to *int, v int) {
				if v == differ || *to == equal {
					*to = v
				}
			}
			for _, el := range propNames {
				worst(&all, cmp(el))
			}
			for _, n := range names {
				worst(&some, cmp(propNames[n]))
			}
			for _, n := range sortedProps() {
				judge(t, cmp(propNames[n]), docx.MergeSamePropRunsOf(n)(a, b), fmt.Sprintf("runs %d and %d, named rule [%s]", i, j, n))
			}
			judge(t, all, docx.MergeSamePropRuns(a, b), fmt.Sprintf("runs %d and %d", i, j))
			judge(t, some, of(a, b), fmt.Sprintf("runs %d and %d, named rule %v", i, j, names))
			if propCount(nodes[i]) >= 2 && propCount(nodes[j]) >= 1 && i != j {
				t.NonTrivial()
			}
		}
	}
	sameStr(t, "changed", "the runs after comparing", before, dump(mem[0]))
}

func propCount(r *xt.Node) int {
	if pr := r.Child(oox.W, "rPr"); pr != nil {
		return len(pr.Elems())
	}
	return 0
}

// fillStruct gives the exported fields of a property random values of a small range.
func fillStruct(t *pbt.T, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !v.Type().Field(i).IsExported() {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(pbt.Pick(t, "", "a", "b", "1", "0"))
		case reflect.Int, reflect.Int64, reflect.Int32:
			f.SetInt(int64(t.Int(-1, 1)))
		case reflect.Bool:
			f.SetBool(t.Bool())
		case reflect.Struct:
			if v.Type().Field(i).Name != "XMLName" {
				fillStruct(t, f)
			}
		}
	}
}

func randomProps(t *pbt.T) *docx.RunProperties {
	if t.Chance(1, 10) {
		return nil
	}
	p := &docx.RunProperties{}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Pointer || !t.Chance(1, 4) {
			continue
		}
		f.Set(reflect.New(f.Type().Elem()))
		if f.Type().Elem().Kind() == reflect.Struct {
			fillStruct(t, f.Elem())
		}
	}
	return p
}

// copyProps copies properties deeply; name of elements may be set or not.
func copyProps(t *pbt.T, p *docx.RunProperties) *docx.RunProperties {
	if p == nil {
		return nil
	}
	n := &docx.RunProperties{}
	a, b := reflect.ValueOf(p).Elem(), reflect.ValueOf(n).Elem()
	for i := 0; i < a.NumField(); i++ {
		f := a.Field(i)
		if f.Kind() != reflect.Pointer || f.IsNil() {
			continue
		}
		x := reflect.New(f.Type().Elem())
		x.Elem().Set(f.Elem())
		b.Field(i).Set(x)
		if f.Type().Elem().Kind() == reflect.Struct {
			if m := x.Elem().FieldByName("XMLName"); m.IsValid() && t.Chance(1, 4) {
				m.Field(1).SetString("x")
			}
		}
	}
	if t.Chance(1, 4) {
		n.XMLName.Local = "rPr"
	}
	return n
}

// sameValue compares one property by value.
func sameValue(a, b reflect.Value) bool {
	if a.IsNil() || b.IsNil() {
		return a.IsNil() && b.IsNil()
	}
	x, y := a.Elem(), b.Elem()
	if x.Kind() != reflect.Struct {
		return reflect.DeepEqual(x.Interface(), y.Interface())
	}
	for i := 0; i < x.NumField(); i++ {
		f := x.Type().Field(i)
		if f.Name == "XMLName" || !f.IsExported() {
			continue
		}
		if !reflect.DeepEqual(x.Field(i).Interface(), y.Field(i).Interface()) {
			return false
		}
	}
	return true
}

func c15memory(t *pbt.T) {
	pa := randomProps(t)
	pb := copyProps(t, pa)
	what := "a copy"
	switch t.Int(0, 3) {
	case 1:
		pb = randomProps(t)
		what = "anything"
	case 2, 3:
		what = "one property differs"
		if pb != nil {
			v := reflect.ValueOf(pb).Elem()
			o := reflect.ValueOf(randomProps(t))
			i := t.Int(0, v.NumField()-1)
			if f := v.Field(i); f.Kind() == reflect.Pointer {
				if !o.IsNil() && t.Bool() {
					f.Set(o.Elem().Field(i))
				} else if !f.IsNil() && f.Type().Elem().Kind() == reflect.Struct {
					x := reflect.New(f.Type().Elem())
					x.Elem().Set(f.Elem())
					fillStruct(t, x.Elem())
					f.Set(x)
				}
			}
		}
	}
	a := &docx.Run{RunProperties: pa, Children: []any{&docx.Text{Text: docgen.Word(t)}}}
	b := &docx.Run{RunProperties: pb, Children: []any{&docx.Tab{}}, InstrText: pbt.Pick(t, "", "x")}
	t.Logf("%s\n a %s\n b %s", what, propsKey(a), propsKey(b))
	va, vb := reflect.ValueOf(orEmpty(pa)).Elem(), reflect.ValueOf(orEmpty(pb)).Elem()
	eq := map[string]bool{}
	all, n := true, 0
	var fields []string
	for i := 0; i < va.NumField(); i++ {
		if va.Field(i).Kind() != reflect.Pointer {
			continue
		}
		f := va.Type().Field(i).Name
		fields = append(fields, f)
		eq[f] = sameValue(va.Field(i), vb.Field(i))
		all = all && eq[f]
		if !va.Field(i).IsNil() {
			n++
		}
	}
	if n >= 2 && pb != nil {
		t.NonTrivial()
	}
	sa, sb := dump(a), dump(b)
	check := func(what string, want bool, rule docx.RunMergeRule) {
		for i, p := range [][2]*docx.Run{{a, b}, {b, a}} {
			if got := rule(p[0], p[1]); got != want {
				t.Failf("verdict", "%s (order %d): %v, expected %v", what, i, got, want)
			}
		}
		for _, r := range []*docx.Run{a, b} {
			if !rule(r, r) {
				t.Failf("reflexive", "%s: a run differs from itself", what)
			}
			if c := (&docx.Run{RunProperties: copyProps(t, r.RunProperties)}); !rule(r, c) {
				t.Failf("reflexive", "%s: a run differs from a copy", what)
			}
		}
	}
	check("MergeSamePropRuns", all, docx.MergeSamePropRuns)
	for _, f := range fields {
		check("named "+f, eq[f], docx.MergeSamePropRunsOf(f))
	}
	var names []string
	want := true
	for k := 0; t.More(k, 8, 3); k++ {
		f := fields[t.Int(0, len(fields)-1)]
		names = append(names, f)
		want = want && eq[f]
	}
	check(fmt.Sprintf("named %v", names), want, docx.MergeSamePropRunsOf(names...))
	check("all named", all, docx.MergeSamePropRunsOf(fields...))
	check("MergeAllRuns", true, docx.MergeAllRuns)
	sameStr(t, "changed", "first run", sa, dump(a))
	sameStr(t, "changed", "second run", sb, dump(b))
	if docx.MergeSamePropRuns(nil, a) || docx.MergeSamePropRuns(a, nil) {
		t.Label("nil run accepted")
	}
}

func orEmpty(p *docx.RunProperties) *docx.RunProperties {
	if p == nil {
		return &docx.RunProperties{}
	}
	return p
}

// c15reopened compares built runs with their saved and reopened forms.
func c15reopened(t *pbt.T) {
	b := newB(t)
	b.noTable, b.noPic, b.noShape, b.noSect = true, true, true, true
	p := b.addPara()
	for k := t.Int(1, 5); k > 0; k-- {
		r := b.addText(p)
		for j := t.Int(0, 4); j > 0; j-- {
			b.styleRun(r)
		}
	}
	data, _ := b.save("styled")
	d := parse(t, data)
	mem := paragraphs(d)
	if len(mem) != 1 || len(mem[0].Children) != len(p.p.Children) {
		t.Failf("items", "the reopened paragraph has not %d runs", len(p.p.Children))
	}
	for i, x := range p.p.Children {
		for j, y := range mem[0].Children {
			a, ok1 := x.(*docx.Run)
			c, ok2 := y.(*docx.Run)
			if !ok1 || !ok2 {
				continue
			}
			// the model decides
			want := sortedKids(b.Items[0].Kids[1+i].Kids[0]) == sortedKids(b.Items[0].Kids[1+j].Kids[0])
			if got := docx.MergeSamePropRuns(a, c); got != want {
				t.Failf("reopened", "run %d and reopened run %d: %v, expected %v", i, j, got, want)
			}
			if len(b.Items[0].Kids[1+i].Kids[0].Kids) >= 2 {
				t.NonTrivial()
			}
		}
	}
}

func sortedKids(c *oox.C) string {
	var l []string
	for _, k := range c.Kids {
		l = append(l, k.String())
	}
	sort.Strings(l)
	return join(l)
}
