package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/pbt"
)

func init() {
	register(&pbt.Prop{
		ID:    "C26",
		Level: "exploration",
		Rule:  "documents put together from the exported structure types, every exported field of every reachable type set at random (found by reflection, so fields added later take part), saved and reopened, and all exported fields compared; non-trivial: at least twenty fields of at least five types were set",
		Assumptions: []string{
			"the structures are ones the format can express: children are of the types their container holds, exactly one of the kinds of graphic is set, a drawing is inline or anchored, a geometry has a name, on/off numbers are 0 or 1",
			"links have an ID or an ID equal to the anchor; a tab within a run carries no position",
		},
		Subs: []pbt.Sub{
			{Name: "paragraphs", Quick: 1500, Weight: 2, Fn: func(t *pbt.T) { c26(t, "paragraph") }},
			{Name: "tables", Quick: 800, Weight: 2, Fn: func(t *pbt.T) { c26(t, "table") }},
			{Name: "drawings", Quick: 1500, Weight: 2, Fn: func(t *pbt.T) { c26(t, "drawing") }},
			{Name: "bodies", Quick: 400, Fn: func(t *pbt.T) { c26(t, "body") }},
		},
	})
}

type filler struct {
	t     *pbt.T
	set   int             // fields set
	types map[string]bool // types with a field set
	den   int             // one of how many pointers is not nil
	depth int             // drawings and text boxes within each other
	only  reflect.Type    // the type of which all fields are set
}

// the numbers which are switches
var switches = map[string]bool{
	"AXfrm.FlipH": true, "AXfrm.FlipV": true, "WPSCNvSpPr.TxBox": true, "ASPLocks.NoChangeArrowheads": true,
	"AGraphicFrameLocks.NoChangeAspect": true, "APicLocks.NoChangeAspect": true, "ABlipFill.RotWithShape": true,
	"WPAnchor.SimplePos": true, "WPAnchor.BehindDoc": true, "WPAnchor.Locked": true, "WPAnchor.LayoutInCell": true,
	"WPAnchor.AllowOverlap": true, "AdjustRightInd.Val": true, "SnapToGrid.Val": true, "Kinsoku.Val": true,
	"OverflowPunct.Val": true, "WTableLook.FirstRow": true, "WTableLook.LastRow": true, "WTableLook.FirstCol": true,
	"WTableLook.LastCol": true, "WTableLook.NoHBand": true, "WTableLook.NoVBand": true, "WPSBodyPr.AnchorCtr": true,
	"WPSBodyPr.Upright": true,
}

// the strings which must not be empty
var named = map[string]bool{"APrstGeom.Prst": true, "Hyperlink.ID": true}

func (f *filler) str() string {
	switch f.t.Weighted(4, 3, 2, 3) {
	case 0:
		return docgen.Word(f.t)
	case 1:
		return ""
	case 2: // values with a meaning, often the default one
		return pbt.Pick(f.t, "left", "top", "center", "auto", "none", "clear", "single", "both", "continue", "restart", "dxa", "baseline", "margin", "column",
			"paragraph", "page", "000000", "FFFFFF", "#000000", "0", "1", "true", "false", "on", "off", "sng", "ctr", "tl", "rect", "print", "preserve",
			"atLeast", "exact", "lines", "default", "eastAsia", "horz", "square", "bothSides", "solid", "med", "flat", "nil", "textWrapping")
	}
	return docgen.String(f.t, 4)
}

func (f *filler) num(bits int) int64 {
	t := f.t
	var n int64
	switch t.Weighted(3, 5, 2, 1) {
	case 0:
		return 0
	case 1:
		n = int64(t.Int(1, 100000))
	case 2:
		n = int64(t.Draw(1 << 31))
	default:
		n = math.MaxInt64
		if bits == 32 {
			n = math.MaxInt32
		}
	}
	if t.Chance(1, 4) {
		n = -n
	}
	return n
}

// children of a container by the type and field they are in
func (f *filler) children(name string) []interface{} {
	t := f.t
	var kinds []func() interface{}
	deep := f.depth >= 2
	mk := func(v interface{}) interface{} {
		f.fill(reflect.ValueOf(v).Elem())
		return v
	}
	switch name {
	case "Paragraph.Children":
		kinds = append(kinds,
			func() interface{} { return mk(new(docx.Run)) },
			func() interface{} { return mk(new(docx.Run)) },
			func() interface{} { return mk(new(docx.Hyperlink)) },
		)
	case "Run.Children":
		kinds = append(kinds,
			func() interface{} { return mk(new(docx.Text)) },
			func() interface{} { return mk(new(docx.BarterRabbet)) },
			func() interface{} { return new(docx.Tab) },
		)
		if !deep {
			kinds = append(kinds, func() interface{} { return mk(new(docx.Drawing)) })
		}
	case "WordprocessingCanvas.Items", "WordprocessingGroup.Elems", "WPGGroupShape.Elems":
		if deep {
			return nil
		}
		kinds = append(kinds,
			func() interface{} { return mk(new(docx.Picture)) },
			func() interface{} { return mk(new(docx.WordprocessingShape)) },
		)
		if name == "WordprocessingCanvas.Items" {
			kinds = append(kinds, func() interface{} { return mk(new(docx.WordprocessingGroup)) })
		} else {
			kinds = append(kinds,
				func() interface{} { return mk(new(docx.WPGGroupShape)) },
				func() interface{} { return mk(new(docx.WordprocessingCanvas)) },
			)
		}
	default:
		return nil // not known to the check
	}
	if strings.HasPrefix(name, "W") {
		f.depth++
		defer func() { f.depth-- }()
	}
	var out []interface{}
	for t.More(len(out), 4, 2) {
		out = append(out, kinds[t.Int(0, len(kinds)-1)]())
	}
	return out
}

func skipField(sf reflect.StructField) bool {
	return !sf.IsExported() || strings.HasPrefix(sf.Name, "XML") || sf.Tag.Get("xml") == "-"
}

func (f *filler) fill(v reflect.Value) {
	t, st := f.t, v.Type()
	name := st.Name()
	all := st == f.only
	switch name {
	case "Drawing", "WPSTextBox":
		f.depth++
		defer func() { f.depth-- }()
	}
	mark := func() {
		f.set++
		f.types[name] = true
	}
	choose := -1
	switch name {
	case "Drawing":
		choose = t.Int(0, 1)
	case "AGraphicData":
		choose = t.Int(0, 3)
	}
	alt := 0
	for i := 0; i < st.NumField(); i++ {
		sf := st.Field(i)
		if skipField(sf) {
			continue
		}
		fv := v.Field(i)
		key := name + "." + sf.Name
		switch fv.Kind() {
		case reflect.String:
			s := f.str()
			if named[key] && s == "" {
				s = "x"
			}
			if s != "" {
				mark()
			}
			fv.SetString(s)
		case reflect.Int, reflect.Int64:
			var n int64
			if switches[key] {
				n = int64(t.Int(0, 1))
			} else {
				n = f.num(64)
			}
			if n != 0 {
				mark()
			}
			fv.SetInt(n)
		case reflect.Struct:
			f.fill(fv)
			if key == "ShapeProperties.PrstGeom" && t.Chance(1, 3) {
				fv.Set(reflect.Zero(fv.Type()))
			}
		case reflect.Ptr:
			set := all || t.Chance(f.den-1, f.den)
			if choose >= 0 {
				set = alt == choose
				alt++
			}
			if fv.Type().Elem().Kind() != reflect.Struct {
				continue
			}
			if f.depth > 3 && fv.Type().Elem().NumField() > 0 {
				set = false
			}
			if !set {
				continue
			}
			fv.Set(reflect.New(fv.Type().Elem()))
			mark()
			f.fill(fv.Elem())
		case reflect.Slice:
			if fv.Type().Elem().Kind() == reflect.Interface {
				fv.Set(reflect.ValueOf(f.children(key)))
				if fv.Len() > 0 {
					mark()
				}
				continue
			}
			for k := fv.Type().Elem(); (k.Kind() == reflect.Struct || k.Kind() == reflect.Ptr) && t.More(fv.Len(), 3, 1); {
				e := reflect.New(fv.Type().Elem()).Elem()
				if e.Kind() == reflect.Ptr {
					e.Set(reflect.New(e.Type().Elem()))
					f.fill(e.Elem())
				} else {
					f.fill(e)
				}
				fv.Set(reflect.Append(fv, e))
				mark()
			}
		}
	}
	if h, ok := v.Addr().Interface().(*docx.Hyperlink); ok && t.Chance(1, 3) {
		h.Anchor = h.ID
	}
}

// fieldDiff finds the first exported field which differs.
func fieldDiff(path string, a, b reflect.Value) string { return fieldDiffBy(path, a, b, nil) }

// fieldDiffBy lets by compare the fields it wants to, by the names of their type and field.
func fieldDiffBy(path string, a, b reflect.Value, by func(key string, a, b reflect.Value) (bool, string)) string {
	if a.Kind() == reflect.Interface {
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: %v became %v", path, a, b)
			}
			return ""
		}
		a, b = a.Elem(), b.Elem()
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: a %v became a %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			if a.IsNil() {
				return path + ": was not there, is there now"
			}
			return path + ": was there, is lost"
		}
		if a.IsNil() {
			return ""
		}
		return fieldDiffBy(path, a.Elem(), b.Elem(), by)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			sf := a.Type().Field(i)
			if skipField(sf) {
				continue
			}
			key := a.Type().Name() + "." + sf.Name
			if by != nil {
				if ok, d := by(key, a.Field(i), b.Field(i)); d != "" {
					return path + "/" + key + ": " + d
				} else if ok {
					continue
				}
			}
			if d := fieldDiffBy(path+"/"+key, a.Field(i), b.Field(i), by); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := fieldDiffBy(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), by); d != "" {
				return d
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q became %q", path, a.String(), b.String())
		}
	case reflect.Int, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d became %d", path, a.Int(), b.Int())
		}
	}
	return ""
}

// structTypes a body can hold
var structTypes = func() []reflect.Type {
	var out []reflect.Type
	seen := map[reflect.Type]bool{}
	var walk func(reflect.Type)
	walk = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice:
			walk(t.Elem())
		case reflect.Struct:
			if seen[t] || t.NumField() == 0 {
				return
			}
			seen[t] = true
			out = append(out, t)
			for i := 0; i < t.NumField(); i++ {
				if !skipField(t.Field(i)) {
					walk(t.Field(i).Type)
				}
			}
		}
	}
	for _, v := range []interface{}{docx.Paragraph{}, docx.Table{}, docx.SectPr{}, docx.Run{}, docx.Hyperlink{}, docx.Text{}, docx.Drawing{}, docx.WPGGroupShape{}} {
		walk(reflect.TypeOf(v))
	}
	return out
}()

func newFiller(t *pbt.T) *filler {
	f := &filler{t: t, types: map[string]bool{}, den: t.Int(2, 6)}
	if t.Bool() {
		f.only = structTypes[t.Int(0, len(structTypes)-1)]
	}
	return f
}

func (f *filler) item(what string) interface{} {
	v := map[string]interface{}{"paragraph": new(docx.Paragraph), "table": new(docx.Table), "sect": new(docx.SectPr)}[what]
	f.fill(reflect.ValueOf(v).Elem())
	return v
}

func c26(t *pbt.T, what string) {
	f := newFiller(t)
	var items []interface{}
	switch what {
	case "paragraph":
		f.depth = 3
		items = append(items, f.item("paragraph"))
	case "table":
		f.depth = 3
		items = append(items, f.item("table"))
	case "drawing":
		d := new(docx.Drawing)
		f.fill(reflect.ValueOf(d).Elem())
		items = append(items, &docx.Paragraph{Children: []interface{}{&docx.Run{Children: []interface{}{d}}}})
	case "body":
		for t.More(len(items), 5, 3) {
			items = append(items, f.item(pbt.Pick(t, "paragraph", "paragraph", "table", "sect")))
		}
	}
	c26check(t, f, items)
}

func c26check(t *pbt.T, f *filler, items []interface{}) {
	d := docx.LoadBodyItems(items, nil).WithDefaultTheme()
	data := save(t, d)
	for i := 0; i < 2; i++ {
		d = parse(t, data)
		if len(d.Document.Body.Items) != len(items) {
			t.Failf("items", "%d items became %d", len(items), len(d.Document.Body.Items))
		}
		for k, want := range items {
			if diff := fieldDiff(fmt.Sprintf("item %d", k), reflect.ValueOf(want), reflect.ValueOf(d.Document.Body.Items[k])); diff != "" {
				t.Failf("field", "after %d times of saving and reopening: %s", i+1, diff)
			}
		}
		if i == 0 {
			data = save(t, d)
		}
	}
	if f.set >= 20 && len(f.types) >= 5 {
		t.NonTrivial()
	}
	for n := range f.types {
		t.Label(n)
	}
}
