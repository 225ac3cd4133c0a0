package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf16"
)

// pdfLine is a line of text on a page.
type pdfLine struct {
	x, y float64
	text string
}

var (
	rePage = regexp.MustCompile(`/Type\s*/Page\b`)
	reTd   = regexp.MustCompile(`([-0-9.]+) ([-0-9.]+) Td `)
	reBox  = regexp.MustCompile(`/MediaBox\s*\[\s*0 0 ([0-9.]+) ([0-9.]+)\s*\]`)
)

// pdfPages takes the text out of a PDF file as written by gofpdf with a
// UTF-8 font.
func pdfPages(file string) (pages [][]pdfLine, w, h float64, err error) {
	if !strings.HasPrefix(file, "%PDF-") || !strings.Contains(file[max(0, len(file)-32):], "%%EOF") {
		return nil, 0, 0, fmt.Errorf("not a complete PDF")
	}
	if m := reBox.FindStringSubmatch(file); m != nil {
		w, _ = strconv.ParseFloat(m[1], 64)
		h, _ = strconv.ParseFloat(m[2], 64)
	}
	rest := file
	for {
		i := strings.Index(rest, "stream\n")
		if i < 0 {
			break
		}
		dict := rest[:i]
		rest = rest[i+7:]
		j := strings.Index(rest, "endstream")
		if j < 0 {
			return nil, 0, 0, fmt.Errorf("stream without end")
		}
		body := rest[:j]
		rest = rest[j+9:]
		if o := strings.LastIndex(dict, " obj"); o >= 0 {
			dict = dict[o:]
		}
		if !strings.Contains(dict, "/FlateDecode") || strings.Contains(dict, "/Length1") {
			continue
		}
		z, err := zlib.NewReader(bytes.NewReader([]byte(body)))
		if err != nil {
			return nil, 0, 0, err
		}
		content, err := io.ReadAll(z)
		if err != nil {
			return nil, 0, 0, err
		}
		c := string(content)
		if !strings.HasPrefix(c, "0 J") && !strings.Contains(c, " Tj ET") && !strings.Contains(c, " TJ ET") && !strings.Contains(c, ")Tj ET") {
			continue
		}
		lines, err := pageText(c)
		if err != nil {
			return nil, 0, 0, err
		}
		pages = append(pages, lines)
	}
	if n := len(rePage.FindAllString(file, -1)); n != len(pages) {
		return nil, 0, 0, fmt.Errorf("%d pages, %d contents", n, len(pages))
	}
	return
}

// pageText takes the text out of the content of a page.
func pageText(c string) (lines []pdfLine, err error) {
	for {
		i := strings.Index(c, "BT ")
		if i < 0 {
			return
		}
		c = c[i+3:]
		if strings.HasPrefix(c, "/") { // choice of font
			continue
		}
		var l pdfLine
		m := reTd.FindStringSubmatchIndex(c)
		if m == nil {
			return nil, fmt.Errorf("text without position: %.60q", c)
		}
		l.x, _ = strconv.ParseFloat(c[m[2]:m[3]], 64)
		l.y, _ = strconv.ParseFloat(c[m[4]:m[5]], 64)
		c = c[m[1]:]
		words := 0
		// literal strings up to ET
		for {
			k := strings.IndexAny(c, "(E")
			if k < 0 {
				return nil, fmt.Errorf("text without end")
			}
			if c[k] == 'E' {
				if strings.HasPrefix(c[k:], "ET") {
					c = c[k+2:]
					break
				}
				c = c[k+1:]
				continue
			}
			c = c[k+1:]
			var b []byte
			for len(c) > 0 && c[0] != ')' {
				if c[0] == '\\' && len(c) > 1 {
					switch c[1] {
					case 'r':
						b = append(b, '\r')
					case 'n':
						b = append(b, '\n')
					default:
						b = append(b, c[1])
					}
					c = c[2:]
					continue
				}
				b = append(b, c[0])
				c = c[1:]
			}
			if len(c) > 0 {
				c = c[1:]
			}
			if len(b)%2 != 0 {
				return nil, fmt.Errorf("odd string %q", b)
			}
			var u []uint16
			for i := 0; i < len(b); i += 2 {
				u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
			}
			s := string(utf16.Decode(u))
			if words > 0 && !strings.HasSuffix(l.text, " ") && !strings.HasPrefix(s, " ") {
				l.text += " "
			}
			l.text += s
			words++
		}
		if l.text != "" {
			lines = append(lines, l)
		}
	}
}

// pdfText is the text of a PDF file, page after page, none of which may lie
// off the page or over other text.
func pdfText(file string) (text string, pages int, err error) {
	ps, w, h, err := pdfPages(file)
	if err != nil {
		return "", 0, err
	}
	var b strings.Builder
	for n, p := range ps {
		last := h
		for _, l := range p {
			if strings.TrimSpace(l.text) == "" {
				continue
			}
			if l.x < 0 || l.x > w || l.y < 0 || l.y > h {
				return "", 0, fmt.Errorf("page %d has text off the page: %v", n+1, l)
			}
			if last-l.y < 6 {
				return "", 0, fmt.Errorf("page %d: %q lies on or above the line before it", n+1, l.text)
			}
			last = l.y
			b.WriteString(l.text + "\n")
		}
	}
	return b.String(), len(ps), nil
}
