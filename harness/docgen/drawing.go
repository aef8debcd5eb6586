package docgen

import (
	"strconv"

	"verif/pbt"
	"verif/xt"
)

func (g *G) emu() string {
	switch g.T.Weighted(4, 3, 1) {
	case 0:
		return itoa(g.T.Int(0, 1000))
	case 1:
		return itoa(g.T.Int(0, 20000000))
	default:
		return strconv.FormatUint(g.T.Draw(1<<43), 10)
	}
}

func (g *G) semu() string {
	v := g.emu()
	if v != "0" && g.T.Chance(1, 3) {
		return "-" + v
	}
	return v
}

func (g *G) id() string {
	g.docPr++
	if g.SimpleIDs || g.T.Chance(3, 4) {
		return itoa(g.docPr)
	}
	g.docPr += g.T.Int(0, 100000)
	return itoa(g.docPr)
}

func (g *G) name() string {
	return g.str("图片 1", "Picture 2", "矩形 3", "a \"b\" <c> & 'd'", "画布 4")()
}

// DrawingIn is a drawing as it stands in a run.
func (g *G) DrawingIn() *xt.Node {
	kind := g.T.Weighted(4, 3, 2, 2)
	if g.depth > 1 && kind > 0 {
		kind = 0
	}
	d := g.Drawing(kind)
	if kind > 0 && g.T.Chance(1, 2) {
		g.feat("alternate")
		rq := []string{"", "wps", "wpc", "wpg"}[kind]
		n := El("mc:AlternateContent", El("mc:Choice", "Requires", rq, d))
		if g.T.Bool() {
			n.Kids = append(n.Kids, El("mc:Fallback", El("w:pict")))
		}
		return n
	}
	return d
}

// Drawing of kind 0 picture, 1 shape, 2 canvas, 3 group.
func (g *G) Drawing(kind int) *xt.Node {
	t := g.T
	g.depth++
	defer func() { g.depth-- }()
	var host *xt.Node
	anchored := t.Chance(1, 2)
	if anchored {
		g.feat("anchor")
		host = El("wp:anchor", "distT", g.emu(), "distB", g.emu(), "distL", g.emu(), "distR", g.emu(), "simplePos", g.flag(), "relativeHeight", itoa(g.Num(0, 251658240)), "behindDoc", g.flag(), "locked", g.flag(), "layoutInCell", g.flag(), "allowOverlap", g.flag())
		host.Kids = append(host.Kids, El("wp:simplePos", "x", g.semu(), "y", g.semu()))
		for _, d := range []string{"wp:positionH", "wp:positionV"} {
			o := El("wp:posOffset")
			o.Kids = []*xt.Node{{Text: g.semu()}}
			host.Kids = append(host.Kids, El(d, "relativeFrom", g.str("column", "page", "margin", "paragraph")(), o))
		}
	} else {
		g.feat("inline")
		host = El("wp:inline")
		for _, a := range []string{"distT", "distB", "distL", "distR"} {
			g.maybe(host, a, g.emu)
		}
	}
	host.Kids = append(host.Kids, El("wp:extent", "cx", g.emu(), "cy", g.emu()))
	if t.Chance(3, 4) {
		host.Kids = append(host.Kids, El("wp:effectExtent", "l", g.emu(), "t", g.emu(), "r", g.emu(), "b", g.emu()))
	}
	if anchored {
		if t.Bool() {
			host.Kids = append(host.Kids, El("wp:wrapNone"))
		} else {
			host.Kids = append(host.Kids, El("wp:wrapSquare", "wrapText", g.str("bothSides", "left", "largest")()))
		}
	}
	dp := El("wp:docPr", "id", g.id())
	if t.Chance(7, 8) {
		g.attr(dp, "name", g.name())
	}
	host.Kids = append(host.Kids, dp)
	if t.Chance(3, 4) {
		l := El("a:graphicFrameLocks")
		g.maybe(l, "noChangeAspect", g.flag)
		host.Kids = append(host.Kids, El("wp:cNvGraphicFramePr", l))
	}
	uri := []string{
		"http://schemas.openxmlformats.org/drawingml/2006/picture",
		"http://schemas.microsoft.com/office/word/2010/wordprocessingShape",
		"http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas",
		"http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"}[kind]
	gd := El("a:graphicData", "uri", uri)
	switch kind {
	case 0:
		gd.Kids = append(gd.Kids, g.Pic())
	case 1:
		gd.Kids = append(gd.Kids, g.Shape())
	case 2:
		gd.Kids = append(gd.Kids, g.Canvas())
	default:
		gd.Kids = append(gd.Kids, g.Group())
	}
	host.Kids = append(host.Kids, El("a:graphic", gd))
	return El("w:drawing", host)
}

func (g *G) cNvPr(name string) *xt.Node {
	return El(name, "id", itoa(g.Num(0, 1000)), "name", g.name())
}

func (g *G) xfrm(child bool) *xt.Node {
	n := El("a:xfrm")
	if g.T.Chance(1, 4) {
		g.attr(n, "rot", itoa(g.Num(-21600000, 21600000)))
	}
	if g.T.Chance(1, 4) {
		g.attr(n, "flipH", g.flag())
	}
	if g.T.Chance(1, 4) {
		g.attr(n, "flipV", g.flag())
	}
	n.Kids = append(n.Kids, El("a:off", "x", g.semu(), "y", g.semu()), El("a:ext", "cx", g.emu(), "cy", g.emu()))
	if child && g.T.Chance(3, 4) || !child && g.T.Chance(1, 8) {
		n.Kids = append(n.Kids, El("a:chOff", "x", g.semu(), "y", g.semu()), El("a:chExt", "cx", g.emu(), "cy", g.emu()))
	}
	return n
}

func (g *G) prst() *xt.Node {
	n := El("a:prstGeom", "prst", g.str("rect", "line", "ellipse", "straightConnector1")())
	if g.T.Bool() {
		n.Kids = append(n.Kids, El("a:avLst"))
	}
	return n
}

func (g *G) blip() *xt.Node {
	b := El("a:blip", "r:embed", g.Picture())
	g.maybe(b, "cstate", g.str("print", "screen"))
	if g.T.Chance(1, 4) {
		b.Kids = append(b.Kids, El("a:alphaModFix", "amt", itoa(g.Num(0, 100000))))
	}
	return b
}

// Pic is a pic:pic.
func (g *G) Pic() *xt.Node {
	t := g.T
	g.feat("pic")
	cp := El("pic:cNvPicPr")
	if t.Bool() {
		l := El("a:picLocks")
		g.maybe(l, "noChangeAspect", g.flag)
		cp.Kids = append(cp.Kids, l)
	}
	st := El("a:stretch")
	if t.Chance(3, 4) {
		st.Kids = append(st.Kids, El("a:fillRect"))
	}
	sp := El("pic:spPr")
	if t.Chance(7, 8) {
		sp.Kids = append(sp.Kids, g.xfrm(false))
	}
	if t.Chance(3, 4) {
		sp.Kids = append(sp.Kids, g.prst())
	}
	return El("pic:pic", El("pic:nvPicPr", g.cNvPr("pic:cNvPr"), cp), El("pic:blipFill", g.blip(), st), sp)
}

func (g *G) line() *xt.Node {
	t := g.T
	n := El("a:ln")
	g.maybe(n, "w", g.nz(1, 20116800))
	g.maybe(n, "cap", g.str("flat", "rnd", "sq"))
	g.maybe(n, "cmpd", g.str("sng", "dbl"))
	g.maybe(n, "algn", g.str("ctr", "in"))
	switch t.Int(0, 2) {
	case 0:
		n.Kids = append(n.Kids, El("a:noFill"))
	case 1:
		n.Kids = append(n.Kids, g.solid())
	}
	if t.Bool() {
		n.Kids = append(n.Kids, El("a:prstDash", "val", g.str("solid", "dash")()))
	}
	switch t.Int(0, 2) {
	case 0:
		n.Kids = append(n.Kids, El("a:round"))
	case 1:
		n.Kids = append(n.Kids, El("a:miter", "lim", g.str("800000", "0")()))
	}
	for _, e := range []string{"a:headEnd", "a:tailEnd"} {
		if t.Bool() {
			x := El(e)
			g.maybe(x, "type", g.str("none", "triangle", "stealth"))
			g.maybe(x, "w", g.str("med", "lg"))
			g.maybe(x, "len", g.str("med", "sm"))
			n.Kids = append(n.Kids, x)
		}
	}
	return n
}

func (g *G) solid() *xt.Node { return El("a:solidFill", El("a:srgbClr", "val", g.color())) }

func (g *G) shapePr(name string, group bool) *xt.Node {
	t := g.T
	n := El(name)
	if t.Bool() {
		g.attr(n, "bwMode", g.str("auto", "black", "white")())
	}
	if t.Chance(3, 4) {
		n.Kids = append(n.Kids, g.xfrm(group))
	}
	if !group && t.Chance(3, 4) {
		n.Kids = append(n.Kids, g.prst())
	}
	switch t.Int(0, 4) {
	case 1:
		n.Kids = append(n.Kids, El("a:noFill"))
	case 2:
		n.Kids = append(n.Kids, g.solid())
	case 3:
		x := El("a:blipFill", "dpi", itoa(g.Num(0, 300)), "rotWithShape", g.flag(), g.blip())
		if t.Bool() {
			x.Kids = append(x.Kids, El("a:srcRect"))
		}
		if t.Bool() {
			x.Kids = append(x.Kids, El("a:tile", "tx", g.semu(), "ty", g.semu(), "sx", g.emu(), "sy", g.emu(), "flip", g.str("none", "x")(), "algn", g.str("tl", "ctr")()))
		}
		n.Kids = append(n.Kids, x)
		g.feat("shape-blip")
	}
	if !group && t.Bool() {
		n.Kids = append(n.Kids, g.line())
	}
	return n
}

// Shape is a wps:wsp.
func (g *G) Shape() *xt.Node {
	t := g.T
	g.feat("shape")
	n := El("wps:wsp")
	if t.Chance(1, 3) {
		n.Kids = append(n.Kids, g.cNvPr("wps:cNvPr"))
	}
	if t.Bool() {
		c := El("wps:cNvCnPr")
		if t.Bool() {
			c.Kids = append(c.Kids, El("a:cxnSpLocks"))
		}
		n.Kids = append(n.Kids, c)
	} else {
		c := El("wps:cNvSpPr")
		g.maybe(c, "txBox", g.flag)
		if t.Bool() {
			l := El("a:spLocks")
			g.maybe(l, "noChangeArrowheads", g.flag)
			c.Kids = append(c.Kids, l)
		}
		n.Kids = append(n.Kids, c)
	}
	n.Kids = append(n.Kids, g.shapePr("wps:spPr", false))
	if t.Chance(1, 2) && g.depth < 3 {
		g.feat("textbox")
		g.depth++
		c := El("w:txbxContent")
		for k := 0; k == 0 || t.More(k, 3, 1); k++ {
			if g.budget > 0 {
				c.Kids = append(c.Kids, g.Paragraph())
			} else {
				c.Kids = append(c.Kids, El("w:p"))
				break
			}
		}
		g.depth--
		n.Kids = append(n.Kids, El("wps:txbx", c))
	}
	b := El("wps:bodyPr")
	g.maybe(b, "rot", g.num(-21600000, 21600000))
	g.maybe(b, "vert", g.str("horz", "vert"))
	g.maybe(b, "wrap", g.str("square", "none"))
	for _, a := range []string{"lIns", "tIns", "rIns", "bIns"} {
		g.maybe(b, a, g.emu)
	}
	g.maybe(b, "anchor", g.str("t", "ctr"))
	g.maybe(b, "anchorCtr", g.flag)
	g.maybe(b, "upright", g.flag)
	if t.Bool() {
		b.Kids = append(b.Kids, El("a:noAutofit"))
	}
	n.Kids = append(n.Kids, b)
	return n
}

// Canvas is a wpc:wpc.
func (g *G) Canvas() *xt.Node {
	t := g.T
	g.feat("canvas")
	n := El("wpc:wpc")
	if t.Bool() {
		b := El("wpc:bg")
		if t.Bool() {
			b.Kids = append(b.Kids, El("a:noFill"))
		}
		n.Kids = append(n.Kids, b)
	}
	if t.Bool() {
		b := El("wpc:whole")
		if t.Bool() {
			b.Kids = append(b.Kids, g.line())
		}
		n.Kids = append(n.Kids, b)
	}
	g.depth++
	defer func() { g.depth-- }()
	for k := 0; t.More(k, 4, 2); k++ {
		g.budget--
		switch t.Weighted(3, 3, 1) {
		case 0:
			n.Kids = append(n.Kids, g.Pic())
		case 1:
			n.Kids = append(n.Kids, g.Shape())
		default:
			if g.depth < 4 {
				n.Kids = append(n.Kids, g.Group())
			}
		}
	}
	return n
}

// Group is a wpg:wgp.
func (g *G) Group() *xt.Node {
	g.feat("group")
	n := El("wpg:wgp")
	g.groupBody(n, false)
	return n
}

func (g *G) groupBody(n *xt.Node, shape bool) {
	t := g.T
	if shape && t.Chance(3, 4) {
		n.Kids = append(n.Kids, g.cNvPr("wpg:cNvPr"))
	}
	c := El("wpg:cNvGrpSpPr")
	if t.Bool() {
		c.Kids = append(c.Kids, El("a:grpSpLocks"))
	}
	n.Kids = append(n.Kids, c, g.shapePr("wpg:grpSpPr", true))
	g.depth++
	defer func() { g.depth-- }()
	for k := 0; t.More(k, 4, 2); k++ {
		g.budget--
		switch t.Weighted(3, 3, 1, 1) {
		case 0:
			n.Kids = append(n.Kids, g.Pic())
		case 1:
			n.Kids = append(n.Kids, g.Shape())
		case 2:
			if g.depth < 5 {
				g.feat("group-shape")
				x := El("wpg:grpSp")
				g.groupBody(x, true)
				n.Kids = append(n.Kids, x)
			}
		default:
			if g.depth < 4 {
				n.Kids = append(n.Kids, g.Canvas())
			}
		}
	}
}

// AnyEmu is for callers outside.
func AnyEmu(t *pbt.T) int64 {
	g := &G{T: t}
	n, _ := strconv.ParseInt(g.emu(), 10, 64)
	return n
}
