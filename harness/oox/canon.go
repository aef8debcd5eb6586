package oox

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/xt"
)

// C is a canonical element.
type C struct {
	Name string
	At   map[string]string
	Kids []*C
	Text string // of w:t, w:instrText, wp:posOffset
}

// Opt selects what the canonical form leaves out.
type Opt struct {
	NoNames bool // identifiers and names of drawings, which change when they are copied
	Brief   bool // drawings reduced to what the building API determines
}

var prefixes = map[string]string{W: "w:", R: "r:", WP: "wp:", A: "a:", PIC: "pic:", WPS: "wps:", WPC: "wpc:", WPG: "wpg:", MC: "mc:", xt.XMLNS: "xml:", "": ""}

func qn(ns, local string) string {
	if p, ok := prefixes[ns]; ok {
		return p + local
	}
	return "{" + ns + "}" + local
}

// children of all other elements are compared as a set
var ordered = map[string]bool{
	"w:document": true, "w:body": true, "w:p": true, "w:r": true, "w:tbl": true, "w:tr": true, "w:tc": true, "w:hyperlink": true,
	"w:txbxContent": true, "w:tabs": true, "w:tblGrid": true, "wpc:wpc": true, "wpg:wgp": true, "wpg:grpSp": true,
}

// property containers which mean nothing when empty
var dropEmpty = map[string]bool{
	"w:rPr": true, "w:pPr": true, "w:trPr": true, "w:tcPr": true, "w:numPr": true, "w:tabs": true,
	"a:graphicFrameLocks": true, "a:picLocks": true, "w:tblPr": true, "w:tcBorders": true, "w:tblBorders": true,
	"w:spacing": true, "w:ind": true, "w:shd": true, "w:rFonts": true, "w:tblpPr": true,
	"w:top": true, "w:left": true, "w:bottom": true, "w:right": true, "w:insideH": true, "w:insideV": true,
	"w:bodyPr": true,
}

var toggles = map[string]bool{"w:b": true, "w:i": true, "w:iCs": true, "w:strike": true, "w:adjustRightInd": true, "w:snapToGrid": true, "w:kinsoku": true, "w:overflowPunct": true}

var boolAttrs = map[string]map[string]bool{
	"w:tblLook":           {"w:firstRow": true, "w:lastRow": true, "w:firstColumn": true, "w:lastColumn": true, "w:noHBand": true, "w:noVBand": true},
	"wp:anchor":           {"simplePos": true, "behindDoc": true, "locked": true, "layoutInCell": true, "allowOverlap": true},
	"a:graphicFrameLocks": {"noChangeAspect": true},
	"a:picLocks":          {"noChangeAspect": true},
	"a:xfrm":              {"flipH": true, "flipV": true},
	"wps:cNvSpPr":         {"txBox": true},
	"a:spLocks":           {"noChangeArrowheads": true},
	"a:blipFill":          {"rotWithShape": true},
	"wps:bodyPr":          {"anchorCtr": true, "upright": true},
}

// attributes whose absence means the same as 0
var zeroDefault = map[string]map[string]bool{
	"a:graphicFrameLocks": {"noChangeAspect": true},
	"a:picLocks":          {"noChangeAspect": true},
	"a:xfrm":              {"flipH": true, "flipV": true, "rot": true},
	"wps:cNvSpPr":         {"txBox": true},
	"a:spLocks":           {"noChangeArrowheads": true},
	"w:tblpPr":            {"w:leftFromText": true, "w:rightFromText": true, "w:tblpX": true, "w:tblpY": true},
	"w:top":               {"w:space": true}, "w:left": {"w:space": true}, "w:bottom": {"w:space": true}, "w:right": {"w:space": true}, "w:insideH": {"w:space": true}, "w:insideV": {"w:space": true},
}

// values of absent attributes
var defaults = map[string]map[string]string{
	"wps:bodyPr": {"lIns": "91440", "tIns": "45720", "rIns": "91440", "bIns": "45720", "rot": "0", "anchorCtr": "0", "upright": "0"},
	"wp:inline":  {"distT": "0", "distB": "0", "distL": "0", "distR": "0"},
	"wp:anchor":  {"distT": "0", "distB": "0", "distL": "0", "distR": "0"},
	"w:tblLook":  {},
}

// zeroXfrm tells whether a transformation does nothing.
func (c *C) zeroXfrm() bool {
	if len(c.At) > 0 {
		return false
	}
	for _, k := range c.Kids {
		if k.Name != "a:off" && k.Name != "a:ext" {
			return false
		}
		for _, v := range k.At {
			if v != "0" {
				return false
			}
		}
	}
	return true
}

func onoff(v string) string {
	switch v {
	case "true", "on":
		return "1"
	case "false", "off":
		return "0"
	}
	return v
}

// ZeroXfrms counts the transformations that do nothing but are there, which canonical forms leave out.
func (p *Pkg) ZeroXfrms() int {
	var count func(n *xt.Node) int
	count = func(n *xt.Node) (k int) {
		if n.NS == A && n.Local == "xfrm" {
			if c := p.canon(n, Opt{}); c != nil && c.zeroXfrm() {
				k++
			}
		}
		for _, e := range n.Elems() {
			k += count(e)
		}
		return
	}
	return count(p.Doc)
}

// Canon brings the main document into canonical form.
func (p *Pkg) Canon(o Opt) *C {
	c := p.canon(p.Doc, o)
	return c
}

// Body items in canonical form.
func (p *Pkg) Body(o Opt) []*C {
	b := p.Doc.Child(W, "body")
	if b == nil {
		return nil
	}
	c := p.canon(b, o)
	return c.Kids
}

func (p *Pkg) link(id string) string {
	r, ok := p.ByID[id]
	if !ok {
		return "DANGLING(" + id + ")"
	}
	if r.Type != RLnk {
		return "WRONGTYPE(" + id + " " + r.Type + ")"
	}
	return r.Mode + "|" + r.Target
}

// Sum is how picture bytes appear in canonical forms.
func Sum(b []byte) string {
	h := md5.Sum(b)
	return hex.EncodeToString(h[:])
}

func (p *Pkg) embed(id string) string {
	_, d, err := p.Media(id)
	if err != nil {
		return "DANGLING(" + err.Error() + ")"
	}
	return Sum(d)
}

func (p *Pkg) canon(n *xt.Node, o Opt) *C {
	c := &C{Name: qn(n.NS, n.Local), At: map[string]string{}}
	if c.Name == "mc:AlternateContent" {
		for _, ch := range n.Elems() {
			if ch.NS == MC && ch.Local == "Choice" {
				rq, _ := ch.Attr("", "Requires")
				if rq == "wps" || rq == "wpc" || rq == "wpg" {
					if el := ch.Elems(); len(el) > 0 {
						return p.canon(el[0], o)
					}
				}
			}
		}
	}
	if c.Name == "w:drawing" && o.Brief {
		return p.brief(n, o)
	}
	ba, zd := boolAttrs[c.Name], zeroDefault[c.Name]
	for _, a := range n.Attrs {
		k, v := qn(a.NS, a.Local), a.Val
		if ba[k] {
			v = onoff(v)
		}
		switch {
		case zd[k] && v == "0":
			continue
		case c.Name == "w:hyperlink" && k == "r:id":
			k, v = "link", p.link(v)
		case c.Name == "a:blip" && k == "r:embed":
			v = p.embed(v)
		case o.NoNames && (c.Name == "wp:docPr" || strings.HasSuffix(c.Name, ":cNvPr")) && (k == "id" || k == "name"):
			continue
		case k == "xml:space" && c.Name != "w:t":
			continue
		case k == "xml:space" && v == "default":
			continue
		case toggles[c.Name] && k == "w:val":
			v = onoff(v)
			if v == "" {
				v = "1"
			}
		}
		c.At[k] = v
	}
	for k, v := range defaults[c.Name] {
		if _, ok := c.At[k]; !ok {
			c.At[k] = v
		}
	}
	if c.Name == "w:tblLook" { // the value has a bit for each flag
		if v, err := strconv.ParseUint(c.At["w:val"], 16, 16); err == nil {
			for i, f := range []string{"w:firstRow", "w:lastRow", "w:firstColumn", "w:lastColumn", "w:noHBand", "w:noVBand"} {
				if _, ok := c.At[f]; !ok {
					c.At[f] = strconv.Itoa(int(v >> (5 + i) & 1))
				}
			}
		}
	}
	if toggles[c.Name] {
		if _, ok := c.At["w:val"]; !ok {
			c.At["w:val"] = "1"
		}
	}
	switch c.Name {
	case "w:t", "w:instrText", "wp:posOffset":
		c.Text = n.Content()
		if strings.Trim(c.Text, " \t\r\n") == c.Text {
			delete(c.At, "xml:space") // makes no difference
		}
		if c.Name == "wp:posOffset" {
			c.Text = strings.TrimSpace(c.Text)
		}
	default:
		if strings.TrimSpace(n.Content()) != "" {
			c.Text = n.Content() // never expected
		}
	}
	for _, k := range n.Elems() {
		kc := p.canon(k, o)
		if kc == nil {
			continue
		}
		if dropEmpty[kc.Name] && len(kc.At) == 0 && len(kc.Kids) == 0 && kc.Text == "" {
			continue
		}
		if kc.Name == "w:instrText" && kc.Text == "" || kc.Name == "w:t" && kc.Text == "" || kc.Name == "a:xfrm" && kc.zeroXfrm() {
			continue
		}
		c.Kids = append(c.Kids, kc)
	}
	if !ordered[c.Name] {
		sort.SliceStable(c.Kids, func(i, j int) bool { return c.Kids[i].Name < c.Kids[j].Name })
	}
	return c
}

func (p *Pkg) brief(n *xt.Node, o Opt) *C {
	c := &C{Name: "drawing", At: map[string]string{}}
	var host *xt.Node
	unnamed := false
	inner := func(names ...*xt.Node) {
		for _, x := range names {
			if x != nil && unnamed {
				c.At["name"], _ = x.Attr("", "name")
				unnamed = false
			}
		}
	}
	if host = n.Child(WP, "inline"); host != nil {
		c.At["mode"] = "inline"
	} else if host = n.Child(WP, "anchor"); host != nil {
		c.At["mode"] = "anchor"
		if host.Child(WP, "wrapNone") != nil {
			c.At["wrap"] = "none"
		}
	} else {
		c.At["mode"] = "none"
		return c
	}
	if e := host.Child(WP, "extent"); e != nil {
		cx, _ := e.Attr("", "cx")
		cy, _ := e.Attr("", "cy")
		c.At["extent"] = cx + "x" + cy
	}
	if d := host.Child(WP, "docPr"); d != nil && !o.NoNames {
		c.At["name"], _ = d.Attr("", "name")
	} else if d == nil && !o.NoNames { // which the format does not allow
		unnamed = true
	}
	g := host.Child(A, "graphic")
	if g == nil {
		return c
	}
	gd := g.Child(A, "graphicData")
	if gd == nil {
		return c
	}
	xfrm := func(sp *xt.Node) string {
		if sp == nil {
			return "no spPr"
		}
		x := sp.Child(A, "xfrm")
		if x == nil {
			return "0x0"
		}
		e := x.Child(A, "ext")
		if e == nil {
			return "no ext"
		}
		cx, _ := e.Attr("", "cx")
		cy, _ := e.Attr("", "cy")
		return cx + "x" + cy
	}
	prst := func(sp *xt.Node) string {
		if sp == nil {
			return ""
		}
		if x := sp.Child(A, "prstGeom"); x != nil {
			v, _ := x.Attr("", "prst")
			return v
		}
		return ""
	}
	for _, k := range gd.Elems() {
		switch qn(k.NS, k.Local) {
		case "pic:pic":
			c.At["kind"] = "pic"
			sp := k.Child(PIC, "spPr")
			c.At["ext"] = xfrm(sp)
			c.At["prst"] = prst(sp)
			c.At["media"] = "none"
			if nv := k.Child(PIC, "nvPicPr"); nv != nil {
				inner(nv.Child(PIC, "cNvPr"))
				unnamed = false
			}
			if bf := k.Child(PIC, "blipFill"); bf != nil {
				if b := bf.Child(A, "blip"); b != nil {
					id, _ := b.Attr(R, "embed")
					c.At["media"] = p.embed(id)
					if unnamed {
						c.At["name"] = id
					}
				}
			}
		case "wps:wsp":
			c.At["kind"] = "shape"
			sp := k.Child(WPS, "spPr")
			inner(k.Child(WPS, "cNvPr"))
			if unnamed {
				c.At["name"] = "nil"
				if sp != nil {
					c.At["name"] = prst(sp)
				}
			}
			c.At["ext"] = xfrm(sp)
			c.At["prst"] = prst(sp)
			if sp != nil {
				if v, ok := sp.Attr("", "bwMode"); ok {
					c.At["bwMode"] = v
				}
				if ln := sp.Child(A, "ln"); ln != nil {
					c.Kids = append(c.Kids, p.canon(ln, o))
				}
			}
		default:
			c.At["kind"] = qn(k.NS, k.Local)
			if unnamed {
				c.At["name"] = "nil"
			}
		}
	}
	return c
}

// E builds an expected canonical element: attributes are given as name, value pairs.
func E(name string, at ...string) *C {
	c := &C{Name: name, At: map[string]string{}}
	for i := 0; i+1 < len(at); i += 2 {
		c.At[at[i]] = at[i+1]
	}
	return c
}

// Add children.
func (c *C) Add(k ...*C) *C { c.Kids = append(c.Kids, k...); return c }

// Clone deeply.
func (c *C) Clone() *C {
	n := &C{Name: c.Name, Text: c.Text, At: make(map[string]string, len(c.At))}
	for k, v := range c.At {
		n.At[k] = v
	}
	for _, k := range c.Kids {
		n.Kids = append(n.Kids, k.Clone())
	}
	return n
}

// Norm sorts and prunes an expected element like Canon does.
func (c *C) Norm() *C {
	n := &C{Name: c.Name, Text: c.Text, At: map[string]string{}}
	for k, v := range c.At {
		n.At[k] = v
	}
	for _, k := range c.Kids {
		kc := k.Norm()
		if dropEmpty[kc.Name] && len(kc.At) == 0 && len(kc.Kids) == 0 && kc.Text == "" {
			continue
		}
		if kc.Name == "w:instrText" && kc.Text == "" || kc.Name == "w:t" && kc.Text == "" {
			continue
		}
		n.Kids = append(n.Kids, kc)
	}
	if !ordered[n.Name] && n.Name != "drawing" {
		sort.SliceStable(n.Kids, func(i, j int) bool { return n.Kids[i].Name < n.Kids[j].Name })
	}
	return n
}

// Strip removes the names of drawings.
func (c *C) Strip() *C {
	n := c.Clone()
	var f func(*C)
	f = func(c *C) {
		if c.Name == "drawing" {
			delete(c.At, "name")
		}
		if c.Name == "wp:docPr" || strings.HasSuffix(c.Name, ":cNvPr") {
			delete(c.At, "id")
			delete(c.At, "name")
		}
		for _, k := range c.Kids {
			f(k)
		}
	}
	f(n)
	return n
}

func (c *C) write(sb *strings.Builder, ind string) {
	sb.WriteString(ind)
	sb.WriteString(c.Name)
	ks := make([]string, 0, len(c.At))
	for k := range c.At {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(sb, " %s=%q", k, c.At[k])
	}
	if c.Text != "" {
		fmt.Fprintf(sb, " %q", c.Text)
	}
	sb.WriteByte('\n')
	for _, k := range c.Kids {
		k.write(sb, ind+" ")
	}
}

func (c *C) String() string {
	var sb strings.Builder
	c.write(&sb, "")
	return sb.String()
}

// Strings of a list of elements.
func Strings(l []*C) string {
	var sb strings.Builder
	for _, c := range l {
		c.write(&sb, "")
	}
	return sb.String()
}

// Diff compares two canonical lists; it is empty if they are equal.
func Diff(want, got []*C) string {
	return DiffText(Strings(want), Strings(got))
}

// DiffText shows the first differing lines.
func DiffText(a, b string) string {
	if a == b {
		return ""
	}
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(al) && i < len(bl) && al[i] == bl[i] {
		i++
	}
	show := func(l []string) string {
		lo, hi := max(0, i-6), min(len(l), i+6)
		if lo > hi {
			lo = hi
		}
		s := strings.Join(l[lo:hi], "\n    ")
		if len(s) > 2500 {
			s = s[:2500] + "…"
		}
		return "    " + s
	}
	return fmt.Sprintf("line %d differs\n  expected:\n%s\n  got:\n%s", i+1, show(al), show(bl))
}
