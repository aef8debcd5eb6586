package docgen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"image"
	"image/gif"
	"image/jpeg"
	"image/png"
	"strings"

	"verif/pbt"
	"verif/xt"
)

var special = []string{"a", " ", "  ", "\t", "\n", "\r", "\r\n", "&", "<", ">", "\"", "'", "]]>", "é", "文", "😀", "\u00a0", "\u2028", "\u0085", "\ufffd", "&amp;", "<!--", "x", "0", "ﬀ", "\U0010fffd", "\ue000", "%", "%20", "{}", "\\n",
	"\ufeff", "\u200b", "\u200d", "\u200e", "\u202e", "\u00ad", "\u3000", "\u2003", "\u0301", "\ufdd0", "\U0001fffe", "\ufffc", "\u007f", "\u0080", "\u009f", "\u1680", "ſ", "\u212a", "İ", "&#13;", "&lt;", "]]", "-->", "?>", "](", "!", "[", "#", "-", "+", "/", "\\", "$", ".", ",", ";", ":", "="}

// Rune of all characters XML allows.
func Rune(t *pbt.T) rune {
	switch t.Weighted(6, 2, 2, 1) {
	case 0:
		return rune('a' + t.Int(0, 25))
	case 1:
		return rune(t.Int(0x20, 0x7e))
	case 2:
		return rune(t.Int(0xa0, 0xd7ff))
	default:
		r := rune(t.Int(0, 0x10ffff))
		if !xt.IsChar(r) {
			r = 'z'
		}
		return r
	}
}

// String of legal characters, with a bias for troublesome ones.
func String(t *pbt.T, avg int) string {
	var sb strings.Builder
	for k := 0; t.More(k, 400, avg/2+1); k++ {
		if t.Chance(1, 3) {
			sb.WriteString(pbt.Pick(t, special...))
		} else {
			sb.WriteRune(Rune(t))
		}
	}
	return sb.String()
}

// Line is a string without line ends and tabs.
func Line(t *pbt.T, avg int) string {
	return strings.Map(func(r rune) rune {
		if r == '\n' || r == '\t' || r == '\r' {
			return '_'
		}
		return r
	}, String(t, avg))
}

// Word of a few letters.
func Word(t *pbt.T) string {
	var sb strings.Builder
	for k := 0; k == 0 || t.More(k, 8, 3); k++ {
		sb.WriteByte(byte('a' + t.Int(0, 25)))
	}
	return sb.String()
}

// AttrString is any non-empty attribute value.
func AttrString(t *pbt.T) string {
	s := String(t, 4)
	if s == "" {
		return "v"
	}
	return s
}

// URL of a link.
func URL(t *pbt.T) string {
	switch t.Weighted(4, 2, 2, 1, 1) {
	case 4:
		return pbt.Pick(t, "#bookmark", "#", "x", "//host/share", `C:\dir\a b.docx`, "HTTP://EXAMPLE.COM/", "rId1", "rId4", "?q", "a|b", " lead", "trail ", "http://x/#", "/word/document.xml", "mailto:", ".", "..") + pbt.Pick(t, "", Word(t))
	case 0:
		return "http://example.com/" + Word(t)
	case 1:
		return pbt.Pick(t, "https://github.com/fumiama/go-docx", "mailto:a@b.c", "http://a/?q=1&r=2#frag", "file:///C:/x y", "../rel/path.docx", "media/image1.png", "styles.xml")
	case 2:
		return "http://x/" + strings.Map(func(r rune) rune {
			if r < ' ' {
				return '_'
			}
			return r
		}, String(t, 6))
	default:
		return "http://" + strings.Repeat("long", t.Int(1, 80))
	}
}

// ImageOf makes a picture header with the given format and size, followed by tail.
func ImageOf(format string, w, h int, tail []byte) []byte {
	var b bytes.Buffer
	switch format {
	case "png":
		b.WriteString("\x89PNG\r\n\x1a\n")
		ch := make([]byte, 17)
		copy(ch, "IHDR")
		binary.BigEndian.PutUint32(ch[4:], uint32(w))
		binary.BigEndian.PutUint32(ch[8:], uint32(h))
		ch[12], ch[13] = 8, 2
		binary.Write(&b, binary.BigEndian, uint32(13))
		b.Write(ch)
		binary.Write(&b, binary.BigEndian, crc32.ChecksumIEEE(ch))
	case "gif":
		b.WriteString("GIF89a")
		binary.Write(&b, binary.LittleEndian, uint16(w))
		binary.Write(&b, binary.LittleEndian, uint16(h))
		b.Write([]byte{0, 0, 0})
	case "jpeg":
		b.Write([]byte{0xff, 0xd8, 0xff, 0xe0, 0, 16})
		b.WriteString("JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00")
		b.Write([]byte{0xff, 0xc0, 0, 17, 8, byte(h >> 8), byte(h), byte(w >> 8), byte(w), 3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1})
	case "webp":
		n := 4 + 8 + 10 + len(tail)
		b.WriteString("RIFF")
		binary.Write(&b, binary.LittleEndian, uint32(n))
		b.WriteString("WEBPVP8X")
		binary.Write(&b, binary.LittleEndian, uint32(10))
		w1, h1 := w-1, h-1
		b.Write([]byte{0, 0, 0, 0, byte(w1), byte(w1 >> 8), byte(w1 >> 16), byte(h1), byte(h1 >> 8), byte(h1 >> 16)})
	}
	b.Write(tail)
	return b.Bytes()
}

// MaxSide of the pictures of a format.
func MaxSide(format string) int {
	if format == "webp" {
		return 65535
	}
	return 65535
}

// Formats of pictures.
var Formats = []string{"png", "jpeg", "gif", "webp"}

// Image makes picture bytes.
func Image(t *pbt.T) []byte {
	b, _, _, _ := ImageInfo(t)
	return b
}

// ImageInfo makes picture bytes and tells what they are.
func ImageInfo(t *pbt.T) (data []byte, format string, w, h int) {
	format = Formats[t.Weighted(4, 2, 2, 1)]
	side := func() int {
		switch t.Weighted(5, 3, 1, 1) {
		case 0:
			return t.Int(1, 40)
		case 1:
			return t.Int(1, 5000)
		case 2:
			return 65535
		default:
			return 1
		}
	}
	w, h = side(), side()
	if t.Chance(1, 8) { // a real picture
		w, h = t.Int(1, 12), t.Int(1, 12)
		img := image.NewGray(image.Rect(0, 0, w, h))
		img.Pix[0] = byte(t.Int(0, 255))
		var b bytes.Buffer
		switch format {
		case "jpeg":
			jpeg.Encode(&b, img, nil)
		case "gif":
			gif.Encode(&b, img, nil)
		default:
			format = "png"
			png.Encode(&b, img)
		}
		return b.Bytes(), format, w, h
	}
	tail := make([]byte, t.Int(0, 8))
	for i := range tail {
		tail[i] = byte(t.Int(0, 255))
	}
	return ImageOf(format, w, h, tail), format, w, h
}

// BadImage makes bytes which are no picture, or one without size.
func BadImage(t *pbt.T) []byte {
	switch t.Int(0, 4) {
	case 0:
		return nil
	case 1:
		return []byte("no picture at all")
	case 2:
		return ImageOf(pbt.Pick(t, "gif", "jpeg"), 0, t.Int(0, 5), nil)
	case 3:
		return ImageOf(pbt.Pick(t, "gif", "jpeg"), t.Int(0, 5), 0, nil)
	default:
		b := Image(t)
		return b[:t.Int(0, min(12, len(b)))]
	}
}

// Describe bytes briefly.
func Describe(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q…(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// Blob is n bytes, compressible or not.
func Blob(t *pbt.T, n int) []byte {
	b := make([]byte, max(0, n))
	x := uint32(t.Int(0, 1<<30))
	switch t.Int(0, 2) {
	case 0: // all the same
		for i := range b {
			b[i] = byte(x)
		}
	case 1: // text
		s := fmt.Sprintf("<a n=\"%d\"/>\r\n", x)
		for i := range b {
			b[i] = s[i%len(s)]
		}
	default:
		for i := range b {
			x = x*1664525 + 1013904223
			b[i] = byte(x >> 24)
		}
	}
	if len(b) > 0 { // the end is special
		b[len(b)-1] = byte(t.Int(0, 255))
	}
	return b
}
