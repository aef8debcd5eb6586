package props

import (
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"

	"verif/docgen"
	"verif/pbt"
)

// cloneOf copies the exported fields, deeply.
func cloneOf(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(cloneOf(v.Elem()))
		}
	case reflect.Interface:
		if !v.IsNil() {
			n.Set(cloneOf(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(cloneOf(v.Index(i)))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(cloneOf(v.Field(i)))
			}
		}
	default:
		n.Set(v)
	}
	return n
}

// propsOrNone takes containers of properties which are not there for empty ones.
func propsOrNone(_ string, a, b reflect.Value) (bool, string) {
	if a.Kind() != reflect.Ptr || !strings.HasSuffix(a.Type().Elem().Name(), "Properties") || a.IsNil() == b.IsNil() {
		return false, ""
	}
	e := reflect.New(a.Type().Elem())
	if a.IsNil() {
		a = e
	} else {
		b = e
	}
	return true, fieldDiffBy("", a, b, propsOrNone)
}

// fvalue is any value of a property.
func fvalue(t *pbt.T, usual ...string) string {
	switch t.Weighted(3, 4, 1, 1) {
	case 0:
		return pbt.Pick(t, usual...)
	case 1:
		return pbt.Pick(t, "", "#808080", "#FFF", "808080", "auto", "none", "0", "1", "-1", "false", "true", "on", "off", " 24 ", "24.5", "12pt", "clear",
			"center", "CENTER", "left", "both", "single", "yellow", "Heading1", "heading 1", "eastAsia", "default", "nil", "00FF00AA", "red")
	case 2:
		return docgen.Word(t)
	}
	return docgen.String(t, 4)
}

// c17values calls the formatting calls with all kinds of values on structures
// of which anything may be set, and compares every exported field.
func c17values(t *pbt.T) {
	f := newFiller(t)
	var p docx.Paragraph
	var r docx.Run
	var l docx.Hyperlink
	var tb docx.Table
	var row docx.WTableRow
	var cell docx.WTableCell
	all := []any{&p, &r, &l, &tb, &row, &cell}
	if t.Chance(4, 5) {
		fill := func(v any) {
			if t.Chance(3, 4) {
				e := reflect.New(reflect.TypeOf(v).Elem().Elem())
				f.fill(e.Elem())
				reflect.ValueOf(v).Elem().Set(e)
			}
		}
		fill(&p.Properties)
		fill(&r.RunProperties)
		fill(&l.Run.RunProperties)
		fill(&tb.TableProperties)
		fill(&row.TableRowProperties)
		fill(&cell.TableCellProperties)
	}
	want := make([]any, len(all))
	for i := range all {
		want[i] = cloneOf(reflect.ValueOf(all[i])).Interface()
	}
	pprops := func() *docx.ParagraphProperties {
		w := want[0].(*docx.Paragraph)
		if w.Properties == nil {
			w.Properties = &docx.ParagraphProperties{}
		}
		return w.Properties
	}
	nprops := func() *docx.RunProperties {
		w := pprops()
		if w.RunProperties == nil {
			w.RunProperties = &docx.RunProperties{}
		}
		return w.RunProperties
	}
	calls := t.Int(1, 6+t.Size/5)
	for n := 0; n < calls; n++ {
		what := ""
		switch t.Int(0, 7) {
		case 0:
			v := fvalue(t, "center", "both")
			what = "paragraph Justification " + v
			p.Justification(v)
			pprops().Justification = &docx.Justification{Val: v}
		case 1:
			switch t.Int(0, 3) {
			case 0:
				v := fvalue(t, "a3", "1")
				what = "Style " + v
				p.Style(v)
				pprops().Style = &docx.Style{Val: v}
			case 1:
				a, b := fvalue(t, "1", "2"), fvalue(t, "0", "1")
				what = "NumPr " + a + ", " + b
				p.NumPr(a, b)
				pprops().NumProperties = &docx.NumProperties{NumID: &docx.NumID{Val: a}, Ilvl: &docx.Ilevel{Val: b}}
			case 2:
				a, e, h, i := fvalue(t, "Arial"), fvalue(t, "宋体"), fvalue(t, "Arial"), fvalue(t, "eastAsia")
				what = "NumFont " + a + ", " + e + ", " + h + ", " + i
				p.NumFont(a, e, h, i)
				nprops().Fonts = &docx.RunFonts{ASCII: a, EastAsia: e, HAnsi: h, Hint: i}
			default:
				v := fvalue(t, "24", "44")
				what = "NumSize " + v
				p.NumSize(v)
				nprops().Size = &docx.Size{Val: v}
			}
		case 2:
			v := fvalue(t, "center", "end")
			what = "table Justification " + v
			tb.Justification(v)
			w := want[3].(*docx.Table)
			if w.TableProperties == nil {
				w.TableProperties = &docx.WTableProperties{}
			}
			w.TableProperties.Justification = &docx.Justification{Val: v}
		case 3:
			v := fvalue(t, "center", "end")
			what = "row Justification " + v
			row.Justification(v)
			w := want[4].(*docx.WTableRow)
			if w.TableRowProperties == nil {
				w.TableRowProperties = &docx.WTableRowProperties{}
			}
			w.TableRowProperties.Justification = &docx.Justification{Val: v}
		case 4:
			v, c, fl := fvalue(t, "clear"), fvalue(t, "auto"), fvalue(t, "E7E6E6")
			what = "cell Shade " + v + ", " + c + ", " + fl
			cell.Shade(v, c, fl)
			w := want[5].(*docx.WTableCell)
			if w.TableCellProperties == nil {
				w.TableCellProperties = &docx.WTableCellProperties{}
			}
			w.TableCellProperties.Shade = &docx.Shade{Val: v, Color: c, Fill: fl}
		default:
			x, w := &r, want[1].(*docx.Run)
			if t.Chance(1, 3) {
				x, w = &l.Run, &want[2].(*docx.Hyperlink).Run
			}
			if w.RunProperties == nil {
				w.RunProperties = &docx.RunProperties{}
			}
			rp := w.RunProperties
			switch t.Int(0, 10) {
			case 0:
				v := fvalue(t, "FF0000", "auto")
				what = "Color " + v
				x.Color(v)
				rp.Color = &docx.Color{Val: v}
			case 1:
				v := fvalue(t, "24", "44")
				what = "Size " + v
				x.Size(v)
				rp.Size = &docx.Size{Val: v}
			case 2:
				v := fvalue(t, "24", "44")
				what = "SizeCs " + v
				x.SizeCs(v)
				rp.SizeCs = &docx.SizeCs{Val: v}
			case 3:
				v, c, fl := fvalue(t, "clear"), fvalue(t, "auto"), fvalue(t, "E7E6E6")
				what = "Shade " + v + ", " + c + ", " + fl
				x.Shade(v, c, fl)
				rp.Shade = &docx.Shade{Val: v, Color: c, Fill: fl}
			case 4:
				v := pbt.Pick(t, 0, 1, -1, 20, -20, 240, 1<<31, t.Int(-5000, 5000))
				what = "Spacing"
				x.Spacing(v)
				rp.Spacing = &docx.Spacing{Val: v}
			case 5:
				what = "Bold"
				x.Bold()
				rp.Bold = &docx.Bold{}
			case 6:
				what = "Italic"
				x.Italic()
				rp.Italic = &docx.Italic{}
			case 7:
				v := fvalue(t, "single", "double", "wave")
				what = "Underline " + v
				x.Underline(v)
				rp.Underline = &docx.Underline{Val: v}
			case 8:
				v := fvalue(t, "yellow", "red")
				what = "Highlight " + v
				x.Highlight(v)
				rp.Highlight = &docx.Highlight{Val: v}
			case 9:
				v := t.Bool()
				what = "Strike"
				x.Strike(v)
				rp.Strike = &docx.Strike{Val: map[bool]string{true: "true", false: "false"}[v]}
				if y := x.RunProperties; y != nil && y.Strike != nil { // 1 means the same as true
					s := strings.NewReplacer("1", "true", "0", "false").Replace(y.Strike.Val)
					if s == "" || s == "on" {
						s = "true"
					} else if s == "off" {
						s = "false"
					}
					rp.Strike.Val = y.Strike.Val
					if s != map[bool]string{true: "true", false: "false"}[v] {
						t.Failf("strike", "Strike(%v) sets the value %q", v, y.Strike.Val)
					}
				}
			default:
				a, e, h, i := fvalue(t, "Arial"), fvalue(t, "宋体"), fvalue(t, "Arial"), fvalue(t, "eastAsia")
				what = "Font " + a + ", " + e + ", " + h + ", " + i
				x.Font(a, e, h, i)
				rp.Fonts = &docx.RunFonts{ASCII: a, EastAsia: e, HAnsi: h, Hint: i}
			}
		}
		t.Logf("%q", what)
		for i := range all {
			if d := fieldDiffBy("", reflect.ValueOf(want[i]).Elem(), reflect.ValueOf(all[i]).Elem(), propsOrNone); d != "" {
				t.Failf("value", "after %q (expected, then what is set): %s", what, d)
			}
		}
	}
	if calls >= 3 && f.set >= 3 {
		t.NonTrivial()
	}
}
