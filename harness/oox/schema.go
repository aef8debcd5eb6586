package oox

import (
	"fmt"
	"strconv"
	"strings"

	"verif/xt"
)

// The order, number and attributes the format (ISO/IEC 29500-1 and the Office
// extensions for shapes) prescribes for the elements the library writes. A child is
// followed by nothing (exactly once), ? (at most once), * (any number) or + (at
// least once); alternatives share a place. Children which the library cannot write
// are listed as well, so that a later addition is judged, too.
var schemaText = map[string]string{
	"w:document":  "w:body",
	"w:p":         "w:pPr? w:r|w:hyperlink*",
	"w:hyperlink": "w:r*",
	"w:r":         "w:rPr? w:t|w:tab|w:br|w:drawing|w:instrText|w:cr|w:fldChar|w:sym|w:noBreakHyphen*",
	"w:pPr": "w:pStyle? w:keepNext? w:keepLines? w:pageBreakBefore? w:framePr? w:widowControl? w:numPr? w:suppressLineNumbers? w:pBdr? w:shd? w:tabs? " +
		"w:suppressAutoHyphens? w:kinsoku? w:wordWrap? w:overflowPunct? w:topLinePunct? w:autoSpaceDE? w:autoSpaceDN? w:bidi? w:adjustRightInd? w:snapToGrid? " +
		"w:spacing? w:ind? w:contextualSpacing? w:mirrorIndents? w:suppressOverlap? w:jc? w:textDirection? w:textAlignment? w:textboxTightWrap? w:outlineLvl? " +
		"w:divId? w:cnfStyle? w:rPr? w:sectPr? w:pPrChange?",
	"w:rPr": "w:rStyle? w:rFonts? w:b? w:bCs? w:i? w:iCs? w:caps? w:smallCaps? w:strike? w:dstrike? w:outline? w:shadow? w:emboss? w:imprint? w:noProof? " +
		"w:snapToGrid? w:vanish? w:webHidden? w:color? w:spacing? w:w? w:kern? w:position? w:sz? w:szCs? w:highlight? w:u? w:effect? w:bdr? w:shd? w:fitText? " +
		"w:vertAlign? w:rtl? w:cs? w:em? w:lang? w:eastAsianLayout? w:specVanish? w:oMath?",
	"w:numPr":      "w:ilvl? w:numId?",
	"w:tabs":       "w:tab+",
	"w:tbl":        "w:tblPr w:tblGrid w:tr*",
	"w:tblPr":      "w:tblStyle? w:tblpPr? w:tblOverlap? w:bidiVisual? w:tblStyleRowBandSize? w:tblStyleColBandSize? w:tblW? w:jc? w:tblCellSpacing? w:tblInd? w:tblBorders? w:shd? w:tblLayout? w:tblCellMar? w:tblLook?",
	"w:tblGrid":    "w:gridCol*",
	"w:tr":         "w:trPr? w:tc*",
	"w:trPr":       "w:trHeight|w:jc|w:cantSplit|w:tblHeader*",
	"w:tc":         "w:tcPr? w:p|w:tbl*",
	"w:tcPr":       "w:cnfStyle? w:tcW? w:gridSpan? w:hMerge? w:vMerge? w:tcBorders? w:shd? w:noWrap? w:tcMar? w:textDirection? w:tcFitText? w:vAlign? w:hideMark?",
	"w:tblBorders": "w:top? w:left|w:start? w:bottom? w:right|w:end? w:insideH? w:insideV?",
	"w:tcBorders":  "w:top? w:left|w:start? w:bottom? w:right|w:end? w:insideH? w:insideV? w:tl2br? w:tr2bl?",
	"w:sectPr": "w:headerReference|w:footerReference* w:footnotePr? w:endnotePr? w:type? w:pgSz? w:pgMar? w:paperSrc? w:pgBorders? w:lnNumType? w:pgNumType? w:cols? " +
		"w:formProt? w:vAlign? w:noEndnote? w:titlePg? w:textDirection? w:bidi? w:rtlGutter? w:docGrid?",
	"w:drawing":      "wp:inline|wp:anchor",
	"w:txbxContent":  "w:p|w:tbl+",
	"wp:inline":      "wp:extent wp:effectExtent? wp:docPr wp:cNvGraphicFramePr? a:graphic",
	"wp:anchor":      "wp:simplePos wp:positionH wp:positionV wp:extent wp:effectExtent? wp:wrapNone|wp:wrapSquare|wp:wrapTight|wp:wrapThrough|wp:wrapTopAndBottom wp:docPr wp:cNvGraphicFramePr? a:graphic",
	"wp:positionH":   "wp:align|wp:posOffset",
	"wp:positionV":   "wp:align|wp:posOffset",
	"a:graphic":      "a:graphicData",
	"a:graphicData":  "pic:pic|wps:wsp|wpc:wpc|wpg:wgp",
	"pic:pic":        "pic:nvPicPr pic:blipFill pic:spPr",
	"pic:nvPicPr":    "pic:cNvPr pic:cNvPicPr",
	"pic:cNvPicPr":   "a:picLocks?",
	"pic:blipFill":   "a:blip? a:srcRect? a:tile|a:stretch?",
	"a:blipFill":     "a:blip? a:srcRect? a:tile|a:stretch?",
	"a:stretch":      "a:fillRect?",
	"pic:spPr":       spPr,
	"wps:spPr":       spPr,
	"wpg:grpSpPr":    "a:xfrm? a:noFill|a:solidFill|a:gradFill|a:blipFill|a:pattFill|a:grpFill? a:effectLst?",
	"a:xfrm":         "a:off? a:ext? a:chOff? a:chExt?",
	"a:prstGeom":     "a:avLst?",
	"a:ln":           "a:noFill|a:solidFill|a:gradFill|a:pattFill? a:prstDash|a:custDash? a:round|a:bevel|a:miter? a:headEnd? a:tailEnd?",
	"a:solidFill":    "a:srgbClr|a:schemeClr|a:prstClr|a:sysClr?",
	"wps:wsp":        "wps:cNvPr? wps:cNvSpPr|wps:cNvCnPr wps:spPr wps:style? wps:extLst? wps:txbx|wps:linkedTxbx? wps:bodyPr",
	"wps:cNvSpPr":    "a:spLocks?",
	"wps:cNvCnPr":    "a:cxnSpLocks? a:stCxn? a:endCxn?",
	"wps:txbx":       "w:txbxContent",
	"wps:bodyPr":     "a:prstTxWarp? a:noAutofit|a:normAutofit|a:spAutoFit?",
	"wpc:wpc":        "wpc:bg? wpc:whole? wps:wsp|pic:pic|wpg:wgp|wpc:graphicFrame*",
	"wpc:whole":      "a:ln?",
	"wpg:wgp":        "wpg:cNvPr? wpg:cNvGrpSpPr wpg:grpSpPr wps:wsp|wpg:grpSp|wpg:graphicFrame|pic:pic*",
	"wpg:grpSp":      "wpg:cNvPr? wpg:cNvGrpSpPr wpg:grpSpPr wps:wsp|wpg:grpSp|wpg:graphicFrame|pic:pic*",
	"wpg:cNvGrpSpPr": "a:grpSpLocks?",
}

const spPr = "a:xfrm? a:prstGeom|a:custGeom? a:noFill|a:solidFill|a:gradFill|a:blipFill|a:pattFill|a:grpFill? a:ln? a:effectLst?"

// attributes which must be there
var schemaAttrs = map[string]string{
	"wp:extent": "cx cy", "wp:effectExtent": "l t r b", "wp:docPr": "id name", "wp:simplePos": "x y", "wp:positionH": "relativeFrom", "wp:positionV": "relativeFrom",
	"wp:anchor": "simplePos relativeHeight behindDoc locked layoutInCell allowOverlap", "wp:wrapSquare": "wrapText",
	"a:graphicData": "uri", "pic:cNvPr": "id name", "wps:cNvPr": "id name", "wpg:cNvPr": "id name", "a:off": "x y", "a:ext": "cx cy", "a:chOff": "x y", "a:chExt": "cx cy",
	"a:prstGeom": "prst", "a:blip": "r:embed", "a:srgbClr": "val", "a:alphaModFix": "",
	"w:color": "w:val", "w:sz": "w:val", "w:szCs": "w:val", "w:jc": "w:val", "w:highlight": "w:val", "w:pStyle": "w:val", "w:rStyle": "w:val", "w:numId": "w:val", "w:ilvl": "w:val",
	"w:vAlign": "w:val", "w:vertAlign": "w:val", "w:kern": "w:val", "w:tblStyle": "w:val", "w:gridSpan": "w:val", "w:textAlignment": "w:val",
	"w:pgMar": "w:top w:right w:bottom w:left w:header w:footer w:gutter",
}

// values of attributes which the building calls choose themselves: words, or
// one of the kinds #bool #uint #int
var schemaVals = map[string]string{
	"wp:positionH relativeFrom": "margin page column character leftMargin rightMargin insideMargin outsideMargin",
	"wp:positionV relativeFrom": "margin page paragraph line topMargin bottomMargin insideMargin outsideMargin",
	"wp:wrapSquare wrapText":    "bothSides left right largest",
	"wp:anchor simplePos":       "#bool", "wp:anchor behindDoc": "#bool", "wp:anchor locked": "#bool", "wp:anchor layoutInCell": "#bool", "wp:anchor allowOverlap": "#bool",
	"wp:anchor relativeHeight": "#uint", "wp:anchor distT": "#uint", "wp:anchor distB": "#uint", "wp:anchor distL": "#uint", "wp:anchor distR": "#uint",
	"wp:inline distT": "#uint", "wp:inline distB": "#uint", "wp:inline distL": "#uint", "wp:inline distR": "#uint",
	"wp:docPr id": "#uint", "pic:cNvPr id": "#uint", "wps:cNvPr id": "#uint", "wpg:cNvPr id": "#uint",
	"wp:simplePos x": "#int", "wp:simplePos y": "#int", "a:off x": "#int", "a:off y": "#int",
	"a:graphicFrameLocks noChangeAspect": "#bool", "a:picLocks noChangeAspect": "#bool", "a:spLocks noChangeArrowheads": "#bool", "wps:cNvSpPr txBox": "#bool",
	"a:xfrm flipH": "#bool", "a:xfrm flipV": "#bool", "a:xfrm rot": "#int", "a:blipFill rotWithShape": "#bool",
	"a:blip cstate": "email screen print hqprint none",
	"a:graphicData uri": "http://schemas.openxmlformats.org/drawingml/2006/picture http://schemas.microsoft.com/office/word/2010/wordprocessingShape " +
		"http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas http://schemas.microsoft.com/office/word/2010/wordprocessingGroup",
	"wps:bodyPr vert": "horz vert vert270 wordArtVert eaVert mongolianVert wordArtVertRtl", "wps:bodyPr wrap": "none square", "wps:bodyPr anchor": "t ctr b just dist",
	"wps:bodyPr anchorCtr": "#bool", "wps:bodyPr upright": "#bool", "wps:bodyPr rot": "#int", "wps:bodyPr lIns": "#int", "wps:bodyPr tIns": "#int", "wps:bodyPr rIns": "#int", "wps:bodyPr bIns": "#int",
	"w:tblW w:type": "nil pct dxa auto", "w:tcW w:type": "nil pct dxa auto", "w:tblW w:w": "#int", "w:tcW w:w": "#int", "w:gridCol w:w": "#int",
	"w:tblLayout w:type": "fixed autofit", "w:trHeight w:hRule": "auto exact atLeast", "w:trHeight w:val": "#int",
	"w:tblLook w:firstRow": "#bool", "w:tblLook w:lastRow": "#bool", "w:tblLook w:firstColumn": "#bool", "w:tblLook w:lastColumn": "#bool", "w:tblLook w:noHBand": "#bool", "w:tblLook w:noVBand": "#bool",
	"w:t xml:space": "preserve default", "w:br w:type": "page column textWrapping", "w:strike w:val": "#bool",
	"w:tblpPr w:horzAnchor": "text margin page", "w:tblpPr w:vertAnchor": "text margin page",
	"w:top w:val": borders, "w:left w:val": borders, "w:bottom w:val": borders, "w:right w:val": borders, "w:insideH w:val": borders, "w:insideV w:val": borders,
	"w:top w:sz": "#uint", "w:left w:sz": "#uint", "w:bottom w:sz": "#uint", "w:right w:sz": "#uint", "w:insideH w:sz": "#uint", "w:insideV w:sz": "#uint",
	"w:top w:space": "#uint", "w:left w:space": "#uint", "w:bottom w:space": "#uint", "w:right w:space": "#uint", "w:insideH w:space": "#uint", "w:insideV w:space": "#uint",
	"w:pgSz w:w": "#uint", "w:pgSz w:h": "#uint", "w:gridSpan w:val": "#int", "w:vMerge w:val": "restart continue",
}

const borders = "nil none single thick double dotted dashed dotDash dotDotDash triple wave"

func schemaVal(kind, v string) bool {
	switch kind {
	case "#bool":
		return v == "0" || v == "1" || v == "true" || v == "false" || v == "on" || v == "off"
	case "#uint":
		_, err := strconv.ParseUint(v, 10, 63)
		return err == nil
	case "#int":
		_, err := strconv.ParseInt(v, 10, 64)
		return err == nil
	}
	for _, x := range strings.Fields(kind) {
		if x == v {
			return true
		}
	}
	return false
}

// what the graphic of a kind holds
var graphicURI = map[string]string{
	"pic:pic": "http://schemas.openxmlformats.org/drawingml/2006/picture", "wps:wsp": "http://schemas.microsoft.com/office/word/2010/wordprocessingShape",
	"wpc:wpc": "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas", "wpg:wgp": "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup",
}

type place struct {
	names string
	suf   byte
}

type rule struct {
	places []place
	at     map[string]int
}

var schema = func() map[string]*rule {
	m := map[string]*rule{}
	for n, s := range schemaText {
		r := &rule{at: map[string]int{}}
		for i, f := range strings.Fields(s) {
			p := place{names: f}
			if c := f[len(f)-1]; c == '?' || c == '*' || c == '+' {
				p.names, p.suf = f[:len(f)-1], c
			}
			for _, k := range strings.Split(p.names, "|") {
				r.at[k] = i
			}
			r.places = append(r.places, p)
		}
		m[n] = r
	}
	return m
}()

// Schema tells what is wrong about the order and number of the elements of the main
// document; strict also asks for what must be there and refuses what must not.
func (p *Pkg) Schema(strict bool) error {
	var err error
	var walk func(n *xt.Node, path string)
	walk = func(n *xt.Node, path string) {
		name := qn(n.NS, n.Local)
		path += "/" + name
		if strict {
			for _, a := range strings.Fields(schemaAttrs[name]) {
				found := false
				for _, x := range n.Attrs {
					found = found || qn(x.NS, x.Local) == a
				}
				if !found && err == nil {
					err = fmt.Errorf("%s has no attribute %s", path, a)
				}
			}
			for _, x := range n.Attrs {
				k := qn(x.NS, x.Local)
				if kind := schemaVals[name+" "+k]; kind != "" && !schemaVal(kind, x.Val) && err == nil {
					err = fmt.Errorf("%s: the attribute %s has the value %q, which it may not have", path, k, x.Val)
				}
			}
			if name == "a:graphicData" {
				uri, _ := n.Attr("", "uri")
				for _, k := range n.Elems() {
					if u := graphicURI[qn(k.NS, k.Local)]; u != "" && u != uri && err == nil {
						err = fmt.Errorf("%s: a graphic of the kind %q is %s", path, uri, k.Local)
					}
				}
			}
		}
		r := schema[name]
		last, cnt := 0, map[int]int{}
		for _, k := range n.Elems() {
			kn := qn(k.NS, k.Local)
			if r != nil {
				i, ok := r.at[kn]
				switch {
				case !ok:
					if strict && err == nil {
						err = fmt.Errorf("%s holds %s, which it may not", path, kn)
					}
				case i < last:
					if err == nil {
						err = fmt.Errorf("%s: %s comes after %s", path, kn, r.places[last].names)
					}
				default:
					last = i
				}
				if ok {
					cnt[i]++
					if s := r.places[i].suf; cnt[i] > 1 && s != '*' && s != '+' && err == nil {
						err = fmt.Errorf("%s: %s is there twice", path, r.places[i].names)
					}
				}
			}
			walk(k, path)
		}
		if r != nil && strict && err == nil {
			for i, pl := range r.places {
				if cnt[i] == 0 && pl.suf != '?' && pl.suf != '*' {
					err = fmt.Errorf("%s has no %s", path, pl.names)
					break
				}
			}
		}
	}
	walk(p.Doc, "")
	return err
}
