package docgen

import (
	"fmt"
	"sort"
	"strings"

	"verif/oox"
	"verif/pbt"
	"verif/xt"
)

// Style says how a tree is spelled. The zero value (with T nil) is the plain spelling.
type Style struct {
	T          *pbt.T
	DeclAtUse  bool // declare namespaces where they are used
	AltPrefix  bool // other prefixes
	DefaultNS  bool // the main namespace without prefix
	SelfClose  int  // 0 always, 1 never, 2 mixed
	Blanks     bool
	Comments   bool
	PIs        bool
	Unknown    bool // unknown elements and attributes
	Refs       bool // character references
	CData      bool
	Shuffle    bool // order of attributes
	Single     bool // single quotes
	BOM, NoDec bool
	DocComment bool
	// NoUnknownIn lists elements in which no unknown elements are inserted
	used map[string]bool
}

// RandomStyle turns some of the variations on.
func RandomStyle(t *pbt.T) *Style {
	s := &Style{T: t}
	s.DeclAtUse = t.Chance(1, 3)
	s.AltPrefix = t.Chance(1, 3)
	s.DefaultNS = t.Chance(1, 4)
	s.SelfClose = t.Int(0, 2)
	s.Blanks = t.Chance(1, 3)
	s.Comments = t.Chance(1, 3)
	s.PIs = t.Chance(1, 4)
	s.Unknown = t.Chance(1, 2)
	s.Refs = t.Chance(1, 3)
	s.CData = t.Chance(1, 3)
	s.Shuffle = t.Chance(1, 3)
	s.Single = t.Chance(1, 3)
	s.BOM = t.Chance(1, 10)
	s.NoDec = t.Chance(1, 6)
	s.DocComment = t.Chance(1, 6)
	return s
}

func (s *Style) String() string {
	return fmt.Sprintf("declAtUse=%v altPrefix=%v defaultNS=%v selfClose=%d blanks=%v comments=%v pis=%v unknown=%v refs=%v cdata=%v shuffle=%v bom=%v", s.DeclAtUse, s.AltPrefix, s.DefaultNS, s.SelfClose, s.Blanks, s.Comments, s.PIs, s.Unknown, s.Refs, s.CData, s.Shuffle, s.BOM)
}

var stdPrefix = map[string]string{oox.W: "w", oox.R: "r", oox.WP: "wp", oox.A: "a", oox.PIC: "pic", oox.WPS: "wps", oox.WPC: "wpc", oox.WPG: "wpg", oox.MC: "mc"}
var altPrefix = map[string]string{oox.W: "ns0", oox.R: "rel", oox.WP: "wd", oox.A: "dml", oox.PIC: "p", oox.WPS: "s", oox.WPC: "c", oox.WPG: "g", oox.MC: "compat"}

const extNS = "urn:example:extension"

func (s *Style) prefix(ns string) string {
	if ns == extNS {
		return "x15"
	}
	if s.AltPrefix {
		return altPrefix[ns]
	}
	return stdPrefix[ns]
}

// textOnly elements hold text, so that no blanks may be added.
var textOnly = map[string]bool{"t": true, "instrText": true, "posOffset": true}

// Marshal a tree as a document.
func (s *Style) Marshal(root *xt.Node) []byte {
	var sb strings.Builder
	if s.BOM {
		sb.WriteString("\ufeff")
	}
	if !s.NoDec {
		sb.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n")
	}
	if s.DocComment {
		sb.WriteString("<!-- a <w:document> -->\n<?pi <w:p/> ?>")
	}
	s.used = map[string]bool{}
	if !s.DeclAtUse {
		root.Walk(func(n *xt.Node) {
			s.used[n.NS] = true
			for _, a := range n.Attrs {
				s.used[a.NS] = true
			}
		})
		if s.Unknown {
			s.used[extNS] = true
		}
	}
	s.elem(&sb, root, map[string]string{"xml": xt.XMLNS}, true)
	if s.DocComment {
		sb.WriteString("<!--end-->")
	}
	return []byte(sb.String())
}

func escAttr(v string, single bool) string {
	var sb strings.Builder
	for _, r := range v {
		switch r {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '"':
			if single {
				sb.WriteByte('"')
			} else {
				sb.WriteString("&quot;")
			}
		case '\'':
			if single {
				sb.WriteString("&apos;")
			} else {
				sb.WriteByte('\'')
			}
		case '\t', '\n', '\r':
			fmt.Fprintf(&sb, "&#%d;", r)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func escText(v string) string {
	var sb strings.Builder
	for _, r := range v {
		switch r {
		case '&':
			sb.WriteString("&amp;")
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		case '\r':
			sb.WriteString("&#13;")
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s *Style) text(sb *strings.Builder, v string) {
	if !s.Refs && !s.CData && !s.Comments && !s.PIs || s.T == nil {
		sb.WriteString(escText(v))
		return
	}
	rs := []rune(v)
	for i := 0; i < len(rs); {
		k := 0
		if s.T.Chance(1, 3) {
			k = s.T.Int(1, 4)
		}
		n := min(len(rs)-i, 1+s.T.Int(0, 5))
		part := string(rs[i : i+n])
		switch {
		case k == 1 && s.Refs:
			for _, r := range part {
				if s.T.Bool() {
					fmt.Fprintf(sb, "&#x%X;", r)
				} else {
					fmt.Fprintf(sb, "&#%d;", r)
				}
			}
		case k == 2 && s.CData && !strings.Contains(part, "]]>") && !strings.Contains(part, "\r") && !strings.Contains(part, "]"):
			sb.WriteString("<![CDATA[" + part + "]]>")
		case k == 3 && s.Comments:
			sb.WriteString("<!-- in text -->" + escText(part))
		case k == 4 && s.PIs:
			sb.WriteString("<?in text?>" + escText(part))
		default:
			sb.WriteString(escText(part))
		}
		i += n
	}
	if len(rs) == 0 && s.CData && s.T.Bool() {
		sb.WriteString("<![CDATA[]]>")
	}
}

func (s *Style) noise(sb *strings.Builder, in *xt.Node) {
	if s.T == nil {
		return
	}
	if s.Blanks {
		sb.WriteString(pbt.Pick(s.T, "", "\n", "  ", "\n\t", "\r\n"))
	}
	if s.Comments && s.T.Chance(1, 5) {
		sb.WriteString(pbt.Pick(s.T, "<!---->", "<!-- <w:t>no</w:t> -->", "<!-- & -->"))
	}
	if s.PIs && s.T.Chance(1, 6) {
		sb.WriteString(pbt.Pick(s.T, "<?pi?>", "<?mso-x <w:p> ?>"))
	}
}

// knownNames are elements the library knows somewhere
var knownNames = []string{
	"p", "r", "t", "tab", "br", "tbl", "tr", "tc", "sectPr", "pgSz", "pgMar", "cols", "docGrid", "titlePg",
	"pPr", "rPr", "tblPr", "trPr", "tcPr", "jc", "b", "i", "u", "sz", "color", "shd", "spacing", "ind",
	"numPr", "numId", "ilvl", "tabs", "tblW", "tblGrid", "gridCol", "tcW", "vAlign", "gridSpan", "vMerge",
	"hyperlink", "instrText", "drawing", "extent", "docPr", "posOffset", "align", "graphic", "graphicData",
	"pic", "blip", "spPr", "xfrm", "off", "ext", "prstGeom", "ln", "solidFill", "srgbClr", "wsp", "wgp",
	"wpc", "txbx", "txbxContent", "bodyPr", "Choice", "Fallback", "AlternateContent", "cNvPr",
}

// unknown elements for everywhere
func (s *Style) unknown(sb *strings.Builder, in *xt.Node, scope map[string]string) {
	if s.T == nil || !s.Unknown || !s.T.Chance(1, 6) {
		return
	}
	if in.NS == oox.MC {
		return
	}
	w := s.prefix(oox.W)
	if scope[w] != oox.W {
		w = "unk"
	}
	wd := ""
	if w == "unk" {
		wd = ` xmlns:unk="` + oox.W + `"`
	}
	x := `<y:ext xmlns:y="` + extNS + `"`
	switch s.T.Int(0, 8) {
	case 0:
		fmt.Fprintf(sb, "<%s:proofErr%s %s:type=\"spellStart\"/>", w, wd, w)
	case 1:
		fmt.Fprintf(sb, "<%s:bookmarkStart%s %s:id=\"0\" %s:name=\"_GoBack\"></%s:bookmarkStart>", w, wd, w, w, w)
	case 2:
		sb.WriteString(x + `/>`)
	case 3:
		sb.WriteString(x + ` val="7">text<y:deep><y:er/></y:deep></y:ext>`)
	case 4:
		fmt.Fprintf(sb, "<%s:lang%s %s:val=\"en-US\"/>", w, wd, w)
	case 5: // known names inside an unknown element
		fmt.Fprintf(sb, "<%s:rPrChange%s %s:id=\"3\"><%s:rPr><%s:b/></%s:rPr></%s:rPrChange>", w, wd, w, w, w, w, w)
	case 6, 7: // what would be known here, were it not inside an unknown element
		k, ns := pbt.Pick(s.T, knownNames...), oox.W
		if kid := in.Kids; len(kid) > 0 && s.T.Chance(2, 3) {
			if n := kid[s.T.Int(0, len(kid)-1)]; n.Local != "" {
				k, ns = n.Local, n.NS
			}
		}
		x = strings.Replace(x, "<y:ext", "<y:more", 1) // ext is known in some places
		at := ` q:val="1" q:w="1" q:type="auto" val="1" id="1" x="1" cx="1" cy="1" prst="line"`
		if ns == "" {
			fmt.Fprintf(sb, `%s><%s val="1" id="1"/></y:more>`, x, k)
		} else if s.T.Bool() {
			fmt.Fprintf(sb, `%s xmlns:q="%s"><q:%s%s/></y:more>`, x, ns, k, at)
		} else { // and text or children in it
			fmt.Fprintf(sb, `%s xmlns:q="%s"><q:%s%s>1<q:%s%s>2</q:%s></q:%s></y:more>`, x, ns, k, at, k, at, k, k)
		}
	default:
		sb.WriteString(x + ` xmlns:q="` + oox.W + `"><q:p><q:r><q:t>hidden</q:t></q:r></q:p></y:ext>`)
	}
}

func (s *Style) elem(sb *strings.Builder, n *xt.Node, scope map[string]string, isRoot bool) {
	t := s.T
	var decl []string
	add := func(p, u string) {
		m := make(map[string]string, len(scope)+1)
		for k, v := range scope {
			m[k] = v
		}
		m[p] = u
		scope = m
		k := "xmlns"
		if p != "" {
			k += ":" + p
		}
		q := `"`
		if s.Single {
			q = `'`
		}
		decl = append(decl, k+"="+q+u+q)
	}
	if isRoot && !s.DeclAtUse {
		us := make([]string, 0)
		for u := range s.used {
			if u != "" && u != xt.XMLNS {
				us = append(us, u)
			}
		}
		sort.Strings(us)
		for _, u := range us {
			add(s.prefix(u), u)
		}
	}
	name := n.Local
	if n.NS != "" {
		if s.DefaultNS && n.NS == oox.W {
			if scope[""] != oox.W {
				add("", oox.W)
			}
		} else {
			p := s.prefix(n.NS)
			if p == "" {
				panic("no prefix for " + n.NS)
			}
			if scope[p] != n.NS {
				add(p, n.NS)
			}
			name = p + ":" + name
		}
	} else if scope[""] != "" {
		add("", "")
	}
	attrs := append([]xt.Attr(nil), n.Attrs...)
	if t != nil && s.Unknown && n.NS != oox.MC && t.Chance(1, 8) {
		attrs = append(attrs, xt.Attr{NS: extNS, Local: pbt.Pick(t, "rsidR", "paraId", "editId"), Val: "00AB12CD"})
	}
	if t != nil && s.Shuffle && len(attrs) > 1 {
		for i := len(attrs) - 1; i > 0; i-- {
			j := t.Int(0, i)
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	var as []string
	for _, a := range attrs {
		k := a.Local
		if a.NS == xt.XMLNS {
			k = "xml:" + k
		} else if a.NS != "" {
			p := s.prefix(a.NS)
			if scope[p] != a.NS {
				add(p, a.NS)
			}
			k = p + ":" + k
		}
		single := s.Single
		v := escAttr(a.Val, single)
		if t != nil && s.Refs && t.Chance(1, 6) {
			v = ""
			for _, r := range a.Val {
				v += fmt.Sprintf("&#x%x;", r)
			}
		}
		q := `"`
		if single {
			q = `'`
		}
		as = append(as, k+"="+q+v+q)
	}
	all := append(decl, as...)
	if t != nil && s.Shuffle && len(decl) > 0 && t.Bool() {
		all = append(as, decl...)
	}
	sb.WriteByte('<')
	sb.WriteString(name)
	for _, a := range all {
		sb.WriteByte(' ')
		if t != nil && s.Blanks && t.Chance(1, 8) {
			sb.WriteString("\n ")
		}
		sb.WriteString(a)
	}
	isText := textOnly[n.Local] && n.NS != ""
	if len(n.Kids) == 0 {
		exp := s.SelfClose == 1 || s.SelfClose == 2 && t != nil && t.Bool()
		if !exp {
			sb.WriteString("/>")
			return
		}
		sb.WriteByte('>')
		if !isText {
			// also content-free content in elements without children
			s.noise(sb, n)
			s.unknown(sb, n, scope)
		} else if s.T != nil {
			s.text(sb, "")
		}
		sb.WriteString("</" + name + ">")
		return
	}
	sb.WriteByte('>')
	for _, k := range n.Kids {
		if k.Local == "" {
			s.text(sb, k.Text)
			continue
		}
		if !isText {
			s.noise(sb, n)
			s.unknown(sb, n, scope)
		}
		s.elem(sb, k, scope, false)
	}
	if !isText {
		s.noise(sb, n)
		s.unknown(sb, n, scope)
	}
	sb.WriteString("</" + name)
	if t != nil && s.Blanks && t.Chance(1, 8) {
		sb.WriteByte(' ')
	}
	sb.WriteByte('>')
}
