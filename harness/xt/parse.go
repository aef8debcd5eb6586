// Package xt is an independent, strict XML reader with namespaces, used to judge
// what the library writes. It shares no code with encoding/xml.
package xt

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Attr of a node. NS is the namespace URI ("" for none).
type Attr struct{ NS, Local, Val string }

// Node is an element (Local != "") or a text (Local == "").
type Node struct {
	NS, Local string
	Attrs     []Attr
	Kids      []*Node
	Text      string
}

// XMLNS is the namespace of the xml prefix.
const XMLNS = "http://www.w3.org/XML/1998/namespace"

type parser struct {
	s   string
	pos int
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	lo := p.pos - 40
	if lo < 0 {
		lo = 0
	}
	hi := p.pos + 40
	if hi > len(p.s) {
		hi = len(p.s)
	}
	panic(perr{fmt.Sprintf("not well formed at byte %d: %s (near %q)", p.pos, fmt.Sprintf(f, a...), p.s[lo:hi])})
}

// IsChar tells whether XML 1.0 allows the character.
func IsChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd || r >= 0x10000 && r <= 0x10ffff
}

func nameStart(r rune) bool {
	return r == ':' || r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= 0xc0 && r != 0xd7 && r != 0xf7 && IsChar(r)
}

func nameChar(r rune) bool {
	return nameStart(r) || r == '-' || r == '.' || r >= '0' && r <= '9' || r == 0xb7
}

// Parse a whole document, strictly.
func Parse(data []byte) (root *Node, err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case perr:
			err = fmt.Errorf("%s", r.msg)
		default:
			panic(r)
		}
	}()
	s := string(data)
	s = strings.TrimPrefix(s, "\ufeff")
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("not well formed: invalid UTF-8")
	}
	for i, r := range s {
		if !IsChar(r) {
			return nil, fmt.Errorf("not well formed: character %U at byte %d is not allowed", r, i)
		}
	}
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	p := &parser{s: s}
	if strings.HasPrefix(p.s, "<?xml") && len(p.s) > 5 && strings.ContainsRune(" \t\n", rune(p.s[5])) {
		i := strings.Index(p.s, "?>")
		if i < 0 {
			p.fail("unterminated XML declaration")
		}
		p.pos = i + 2
	}
	p.misc()
	if p.pos >= len(p.s) || p.s[p.pos] != '<' {
		p.fail("no root element")
	}
	root = p.element(map[string]string{"xml": XMLNS}, 0)
	p.misc()
	if p.pos != len(p.s) {
		p.fail("content after the root element")
	}
	return root, nil
}

func (p *parser) ws() {
	for p.pos < len(p.s) && strings.IndexByte(" \t\n", p.s[p.pos]) >= 0 {
		p.pos++
	}
}

func (p *parser) has(x string) bool { return strings.HasPrefix(p.s[p.pos:], x) }

func (p *parser) misc() {
	for {
		p.ws()
		switch {
		case p.has("<!--"):
			p.comment()
		case p.has("<?"):
			p.pi()
		default:
			return
		}
	}
}

func (p *parser) comment() {
	i := strings.Index(p.s[p.pos+4:], "--")
	if i < 0 || !strings.HasPrefix(p.s[p.pos+4+i:], "-->") {
		p.fail("bad comment")
	}
	p.pos += 4 + i + 3
}

func (p *parser) pi() {
	p.pos += 2
	n := p.name()
	if strings.EqualFold(n, "xml") {
		p.fail("reserved processing instruction")
	}
	i := strings.Index(p.s[p.pos:], "?>")
	if i < 0 {
		p.fail("unterminated processing instruction")
	}
	p.pos += i + 2
}

func (p *parser) name() string {
	st := p.pos
	for p.pos < len(p.s) {
		r, n := utf8.DecodeRuneInString(p.s[p.pos:])
		if p.pos == st && !nameStart(r) || !nameChar(r) {
			break
		}
		p.pos += n
	}
	if st == p.pos {
		p.fail("name expected")
	}
	return p.s[st:p.pos]
}

func (p *parser) qname() (pre, local string) {
	n := p.name()
	i := strings.IndexByte(n, ':')
	if i < 0 {
		return "", n
	}
	pre, local = n[:i], n[i+1:]
	if pre == "" || local == "" || strings.IndexByte(local, ':') >= 0 || !nameStart([]rune(local)[0]) {
		p.fail("bad qualified name %q", n)
	}
	return
}

func (p *parser) ref() string {
	i := strings.IndexByte(p.s[p.pos:], ';')
	if i < 0 {
		p.fail("unterminated reference")
	}
	e := p.s[p.pos+1 : p.pos+i]
	p.pos += i + 1
	switch e {
	case "lt":
		return "<"
	case "gt":
		return ">"
	case "amp":
		return "&"
	case "quot":
		return `"`
	case "apos":
		return "'"
	}
	var v rune
	var n int
	ok := false
	if strings.HasPrefix(e, "#x") {
		n, _ = fmt.Sscanf(e[2:], "%x", &v)
		ok = n == 1 && len(e) > 2 && strings.Trim(e[2:], "0123456789abcdefABCDEF") == ""
	} else if strings.HasPrefix(e, "#") {
		n, _ = fmt.Sscanf(e[1:], "%d", &v)
		ok = n == 1 && len(e) > 1 && strings.Trim(e[1:], "0123456789") == ""
	}
	if !ok || !IsChar(v) {
		p.fail("bad reference &%s;", e)
	}
	return string(v)
}

func (p *parser) element(ns map[string]string, depth int) *Node {
	if depth > 10000 {
		p.fail("too deep")
	}
	p.pos++ // <
	pre, local := p.qname()
	type rawAttr struct{ pre, local, val string }
	var attrs []rawAttr
	scope := ns
	copied := false
	empty := false
	for {
		before := p.pos
		p.ws()
		if p.has("/>") {
			p.pos += 2
			empty = true
			break
		}
		if p.has(">") {
			p.pos++
			break
		}
		if before == p.pos {
			p.fail("blank expected in tag")
		}
		apre, alocal := p.qname()
		p.ws()
		if !p.has("=") {
			p.fail("= expected")
		}
		p.pos++
		p.ws()
		if p.pos >= len(p.s) || p.s[p.pos] != '"' && p.s[p.pos] != '\'' {
			p.fail("quote expected")
		}
		q := p.s[p.pos]
		p.pos++
		var sb strings.Builder
		for {
			if p.pos >= len(p.s) {
				p.fail("unterminated attribute")
			}
			c := p.s[p.pos]
			if c == q {
				p.pos++
				break
			}
			switch c {
			case '<':
				p.fail("< in attribute")
			case '&':
				sb.WriteString(p.ref())
			case '\t', '\n':
				sb.WriteByte(' ')
				p.pos++
			default:
				sb.WriteByte(c)
				p.pos++
			}
		}
		if apre == "" && alocal == "xmlns" || apre == "xmlns" {
			if !copied {
				m := make(map[string]string, len(ns)+2)
				for k, v := range ns {
					m[k] = v
				}
				scope, copied = m, true
			}
			key := alocal
			if apre == "" {
				key = ""
			} else if sb.Len() == 0 {
				p.fail("prefix %s undeclared by an empty namespace", alocal)
			}
			for _, a := range attrs {
				if a.pre == "xmlns" && a.local == alocal && apre != "" || a.pre == "" && a.local == "xmlns" && apre == "" {
					p.fail("duplicate namespace declaration")
				}
			}
			scope[key] = sb.String()
		}
		attrs = append(attrs, rawAttr{apre, alocal, sb.String()})
	}
	n := &Node{Local: local}
	if pre == "" {
		n.NS = scope[""]
	} else {
		u, ok := scope[pre]
		if !ok {
			p.fail("prefix %q of element %q not declared", pre, local)
		}
		n.NS = u
	}
	for _, a := range attrs {
		if a.pre == "xmlns" || a.pre == "" && a.local == "xmlns" {
			continue
		}
		at := Attr{Local: a.local, Val: a.val}
		if a.pre != "" {
			u, ok := scope[a.pre]
			if !ok {
				p.fail("prefix %q of attribute %q not declared", a.pre, a.local)
			}
			at.NS = u
		}
		for _, b := range n.Attrs {
			if b.NS == at.NS && b.Local == at.Local {
				p.fail("duplicate attribute %s", a.local)
			}
		}
		n.Attrs = append(n.Attrs, at)
	}
	if empty {
		return n
	}
	var sb strings.Builder
	flush := func() {
		if sb.Len() > 0 {
			n.Kids = append(n.Kids, &Node{Text: sb.String()})
			sb.Reset()
		}
	}
	for {
		if p.pos >= len(p.s) {
			p.fail("element %s not closed", local)
		}
		switch {
		case p.has("</"):
			flush()
			p.pos += 2
			cp, cl := p.qname()
			if cp != pre || cl != local {
				p.fail("end tag %s:%s for %s:%s", cp, cl, pre, local)
			}
			p.ws()
			if !p.has(">") {
				p.fail("> expected")
			}
			p.pos++
			return n
		case p.has("<!--"):
			p.comment()
		case p.has("<![CDATA["):
			i := strings.Index(p.s[p.pos:], "]]>")
			if i < 0 {
				p.fail("unterminated CDATA")
			}
			sb.WriteString(p.s[p.pos+9 : p.pos+i])
			p.pos += i + 3
		case p.has("<?"):
			p.pi()
		case p.s[p.pos] == '<':
			flush()
			n.Kids = append(n.Kids, p.element(scope, depth+1))
		case p.s[p.pos] == '&':
			sb.WriteString(p.ref())
		default:
			if p.has("]]>") {
				p.fail("]]> in text")
			}
			sb.WriteByte(p.s[p.pos])
			p.pos++
		}
	}
}

// Attr value by namespace and name.
func (n *Node) Attr(ns, local string) (string, bool) {
	for _, a := range n.Attrs {
		if a.NS == ns && a.Local == local {
			return a.Val, true
		}
	}
	return "", false
}

// Child finds the first child element.
func (n *Node) Child(ns, local string) *Node {
	for _, k := range n.Kids {
		if k.NS == ns && k.Local == local && k.Local != "" {
			return k
		}
	}
	return nil
}

// Elems are the child elements.
func (n *Node) Elems() []*Node {
	var r []*Node
	for _, k := range n.Kids {
		if k.Local != "" {
			r = append(r, k)
		}
	}
	return r
}

// Content is the text directly inside an element.
func (n *Node) Content() string {
	var sb strings.Builder
	for _, k := range n.Kids {
		if k.Local == "" {
			sb.WriteString(k.Text)
		}
	}
	return sb.String()
}

// Walk visits all elements.
func (n *Node) Walk(f func(*Node)) {
	if n.Local == "" {
		return
	}
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// Clone deeply.
func (n *Node) Clone() *Node {
	c := *n
	c.Attrs = append([]Attr(nil), n.Attrs...)
	c.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = k.Clone()
	}
	return &c
}

// Dump writes a tree with its namespaces, the attributes in the order of their names.
func (n *Node) Dump() string {
	var sb strings.Builder
	n.dump(&sb, "")
	return sb.String()
}

func (n *Node) dump(sb *strings.Builder, ind string) {
	if n.Local == "" {
		fmt.Fprintf(sb, "%s%q\n", ind, n.Text)
		return
	}
	as := make([]string, 0, len(n.Attrs))
	for _, a := range n.Attrs {
		as = append(as, fmt.Sprintf(" {%s}%s=%q", a.NS, a.Local, a.Val))
	}
	sort.Strings(as)
	fmt.Fprintf(sb, "%s{%s}%s%s\n", ind, n.NS, n.Local, strings.Join(as, ""))
	for _, k := range n.Kids {
		k.dump(sb, ind+" ")
	}
}
