package checks

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"verif/harness/kit"
)

// sheet is a printed key sheet as a reader takes it in.
type sheet struct {
	id, expires, created, used string
	keepers                    []string
	groups                     []string
	letters                    string
	third                      func(a, b byte) byte
	t1, t2                     []rune
	cols                       int
	text                       string
}

var (
	sepLine  = regexp.MustCompile(`^_{60,}\s*$`)
	dashLine = regexp.MustCompile(`^-{60,}\s*$`)
	heading  = regexp.MustCompile(`A  B  C  D  E  F  G  H  I  J  K  L  M  N  O  P  Q  R  S  T  U  V  W  X  Y  Z`)
	reExp    = regexp.MustCompile(`EXPIRES:\s*([0-9]{6}[A-Z]+[0-9]{2})`)
	reCre    = regexp.MustCompile(`CREATED:\s*([0-9]{6}[A-Z]+[0-9]{2})`)
	reUsed   = regexp.MustCompile(`USED:\s*\[(.)\]`)
	reKeep   = regexp.MustCompile(`(?s)KEEPERS:\s*([^\s/][^ ]*(?:,\s*[^\s,]+)*)`)
	reLegend = regexp.MustCompile(`(\S) (Switch table|Toggle binary mode|Toggle case|Change key) \(([A-Z])\)`)
)

// splitSheets cuts printed text at the separator each sheet starts with.
func splitSheets(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimRight(l, "\r")
		if sepLine.MatchString(l) {
			out = append(out, "")
		}
		if len(out) > 0 {
			out[len(out)-1] += l + "\n"
		}
	}
	return out
}

// parseSheet reads one key sheet.
func parseSheet(text string) (*sheet, error) {
	s := &sheet{text: text}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if len(lines) < 8 || !sepLine.MatchString(lines[0]) {
		return nil, fmt.Errorf("no sheet")
	}
	s.cols = utf8.RuneCountInString(strings.TrimRight(lines[0], " "))
	dash, legend := -1, -1
	for i, l := range lines {
		if dash < 0 && dashLine.MatchString(l) {
			dash = i
		}
		if strings.HasPrefix(l, "CODING LEGEND") {
			legend = i
		}
	}
	if dash < 2 || legend < dash {
		return nil, fmt.Errorf("no separator or legend")
	}
	s.id, _, _ = strings.Cut(lines[1], " ")
	head := strings.Join(lines[1:dash], "\n")
	get := func(re *regexp.Regexp) string {
		if m := re.FindStringSubmatch(head); m != nil {
			return m[1]
		}
		return ""
	}
	s.expires, s.created, s.used = get(reExp), get(reCre), get(reUsed)
	// The keepers are between the word KEEPERS: and the next " / " or, below
	// the header, the end.
	if i := strings.Index(head, "KEEPERS:"); i >= 0 {
		k := head[i+len("KEEPERS:"):]
		if j := strings.Index(k, " / "); j >= 0 {
			k = k[:j]
		}
		for _, f := range strings.FieldsFunc(k, func(r rune) bool { return r == ',' || r == ' ' || r == '\n' }) {
			s.keepers = append(s.keepers, f)
		}
	}
	var rows [][]string
	sawHeading := false
	for _, l := range lines[dash+1 : legend] {
		if heading.MatchString(l) {
			sawHeading = true
			l = heading.ReplaceAllString(l, "")
		}
		if m := bigramRow.FindString(l); m != "" {
			rows = append(rows, strings.Fields(m))
			l = strings.Replace(l, m, "", 1)
		}
		s.groups = append(s.groups, strings.Fields(l)...)
	}
	s.letters = strings.Join(s.groups, "")
	if !sawHeading || len(rows) != 26 {
		return nil, fmt.Errorf("the table has %d rows (heading: %v)", len(rows), sawHeading)
	}
	s.third = func(a, b byte) byte {
		for _, r := range rows {
			if r[a-'A'][0] == b {
				return r[a-'A'][1] - 'a' + 'A'
			}
		}
		return '?'
	}
	// legend
	var idx, ct1, ct2 []rune
	for _, l := range lines[legend:] {
		r := []rune(l + strings.Repeat(" ", 80))
		switch {
		case strings.HasPrefix(l, "IDX"):
			idx = r
		case strings.HasPrefix(l, "CT1"):
			ct1 = r
		case strings.HasPrefix(l, "CT2"):
			ct2 = r
		}
	}
	if idx == nil || ct1 == nil || ct2 == nil {
		return nil, fmt.Errorf("incomplete legend")
	}
	control := map[rune]string{}
	letter := map[string]string{}
	for _, m := range reLegend.FindAllStringSubmatch(strings.Join(lines[legend:], "\n"), -1) {
		r, _ := utf8.DecodeRuneInString(m[1])
		control[r] = m[2]
		letter[m[2]] = m[3]
	}
	if len(control) != 4 || letter["Switch table"] != "Z" || letter["Toggle binary mode"] != "W" || letter["Toggle case"] != "X" || letter["Change key"] != "Y" {
		return nil, fmt.Errorf("legend explains %v %v", control, letter)
	}
	col := 0
	for i := 4; i < len(idx) && col < 26; i++ {
		if idx[i] != rune('A'+col) {
			continue
		}
		for n, row := range [][]rune{ct1, ct2} {
			c := row[i]
			if name, ok := control[c]; ok {
				if letter[name] != string(rune('A'+col)) {
					return nil, fmt.Errorf("legend gives %q for %c in table %d", name, 'A'+col, n+1)
				}
				c = 0
			}
			if n == 0 {
				s.t1 = append(s.t1, c)
			} else {
				s.t2 = append(s.t2, c)
			}
		}
		col++
		i++
	}
	if col != 26 {
		return nil, fmt.Errorf("legend has %d columns", col)
	}
	return s, nil
}

// handSheet is what several parsed sheets give for deciphering by hand.
func handSheet(group int, sheets []*sheet) *kit.Sheet {
	h := &kit.Sheet{Group: group, Keys: map[string]string{}}
	for _, s := range sheets {
		h.T1, h.T2, h.Third = s.t1, s.t2, s.third
		h.Keys[s.id] = s.letters
	}
	return h
}
