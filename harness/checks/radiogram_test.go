package checks

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/harness/kit"
)

// radiogram is a radiogram with the parts it is made of.
type radiogram struct {
	text     string // as entered
	to       []string
	from     string
	dtg      string // as spelled, "" if absent
	at       func(now time.Time) (time.Time, int)
	body     string // with single line breaks as blanks
	format   string
	closing  string
	brief    bool // the body has no runs of blanks or line breaks
	hasBreak bool
}

var formats = []string{"mini", "short", "short", "short with instructions", "short with count", "short with instructions and count", "semi", "semi with count", "full", "full with instructions and count"}

var closings = []string{" = K", " = K", "= K", "=K", " K", " = +", " +", "[AR]", " [AR]", " = AR", "=AR", "", " = k", " k", "  =  K  ", "\n= K\n", "\r\n=\r\nK\r\n", "\nK\n", " = K "}

var bodyWords = []string{"HELLO", "world", "THE", "K", "k", "AR", "+", "QJ", "123456", "012345", "0", "ABCDE", "Åäö", "WELL,", "there.", "Q?", "a/b", "1:2", "-", "+46", "DE", "de", "VJ", "COL", "JAN23", "[AR]", "×", "日本", "K+", "\U0001F600", "MBS", "15"}

// gap draws space between two words.
func gap(t *rapid.T, label string, breaks bool) string {
	if breaks {
		return rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "\n", "\r\n", " \n ", "\t", "   ", "\r"}).Draw(t, label)
	}
	return rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "   "}).Draw(t, label)
}

// drawBody draws the text of a radiogram which cannot be mistaken for any other
// part of it.
func drawBody(t *rapid.T, mini bool, closing string) (raw, body string, brief, breaks bool) {
	n := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 120)).Draw(t, "words")
	style := rapid.IntRange(0, 2).Draw(t, "bodyStyle")
	plain := rapid.Bool().Draw(t, "plainGaps")
	var words []string
	for i := 0; i < n; i++ {
		w := ""
		switch style {
		case 0:
			w = rapid.SampledFrom(bodyWords).Draw(t, "word")
		case 1:
			w = kit.Letters(t, 5, "group")
		case 2:
			w = rapid.StringMatching(`[A-Za-z0-9?.,:/\-åäöÅÄÖ]{1,9}`).Draw(t, "word")
		}
		words = append(words, w)
	}
	// several sections
	if !mini && rapid.IntRange(0, 4).Draw(t, "sections") == 0 && n > 2 {
		words[n/2] = "="
	}
	fix := func(i int, bad func(string) bool, good string) {
		if bad(words[i]) {
			words[i] = good
		}
	}
	up := strings.ToUpper
	for i := range words {
		if mini {
			fix(i, func(w string) bool { return up(w) == "DE" }, "ED")
		}
	}
	first := func(w string) bool {
		return strings.HasPrefix(w, "=") || mini && len(w) >= 6 && strings.Trim(w[:6], "0123456789") == ""
	}
	fix(0, first, "FIRST")
	last := func(w string) bool {
		u := up(w)
		return u == "K" || u == "AR" || strings.HasSuffix(u, "+") || strings.HasSuffix(u, "=") || strings.HasSuffix(u, "[AR]") || u == "="
	}
	fix(n-1, last, "LAST,")
	if mini && strings.Contains(closing, "=") {
		// not to be taken for instructions
		if len(words) <= 2 {
			words = append([]string{"LONGER"}, words...)
			n = len(words)
		}
		fix(0, func(w string) bool { return len(w) <= 4 }, "LONGER")
	}
	raw, body = words[0], words[0]
	brief = true
	for _, w := range words[1:] {
		g := " "
		if !plain {
			g = gap(t, "bodyGap", true)
		}
		switch g {
		case " ", "\n", "\r\n", "\r": // one blank
		default:
			brief = false
		}
		if strings.ContainsAny(g, "\r\n") {
			breaks = true
		}
		raw += g + w
		body += " " + w
	}
	return
}

var radioCalls = []string{"QJ", "VJ", "VL", "VN", "BA", "SA4LGZ", "AB/P", "K2", "ZZ9ZA", "OH0A/M", "XY", "K", "ED", "COL", "AR", "J", "1A", "SP3RN/QRP", "MBS", "Z"}

// drawRadioCall draws a call-sign of a radiogram.
func drawRadioCall(t *rapid.T, label string) string {
	return rapid.OneOf(rapid.SampledFrom(radioCalls), rapid.StringMatching(`[A-Z0-9/]{1,12}`).Filter(func(s string) bool { return s != "DE" })).Draw(t, label)
}

// drawRadiogram draws a radiogram of a documented format.
func drawRadiogram(t *rapid.T, from string, to []string) radiogram {
	r := radiogram{format: rapid.SampledFrom(formats).Draw(t, "format"), closing: rapid.SampledFrom(closings).Draw(t, "closing")}
	r.from = from
	if from == "" {
		r.from = drawRadioCall(t, "from")
	}
	r.to = to
	if to == nil {
		n := rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 40)).Draw(t, "addressees")
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			if c := drawRadioCall(t, "to"); !seen[c] {
				seen[c] = true
				r.to = append(r.to, c)
			}
		}
	}
	mini := r.format == "mini"
	mixed := rapid.Bool().Draw(t, "mixedCase")
	loose := rapid.Bool().Draw(t, "looseBlanks")
	sp := func() string {
		if loose {
			return gap(t, "gap", true)
		}
		return " "
	}
	// space where none is needed
	osp := func() string {
		if loose && rapid.IntRange(0, 2).Draw(t, "noBlank") == 0 {
			return ""
		}
		return sp()
	}
	cs := func(s string) string {
		if mixed {
			return kit.MixCase(t, s, "header")
		}
		return s
	}
	var b strings.Builder
	if loose {
		b.WriteString(rapid.SampledFrom([]string{"", " ", "\n", "  \n"}).Draw(t, "leading"))
	}
	for i, c := range r.to {
		b.WriteString(cs(c))
		if loose && i+1 < len(r.to) && rapid.IntRange(0, 3).Draw(t, "comma") == 0 {
			b.WriteString(",")
		}
		b.WriteString(sp())
	}
	b.WriteString(cs("DE"))
	b.WriteString(sp())
	b.WriteString(cs(r.from))
	switch rapid.IntRange(0, 3).Draw(t, "dtg") {
	case 0:
	case 1: // DDHHMM
		d, h, m := rapid.IntRange(1, 28).Draw(t, "day"), rapid.IntRange(0, 23).Draw(t, "hour"), rapid.IntRange(0, 59).Draw(t, "minute")
		r.dtg = fmt.Sprintf("%02d%02d%02d", d, h, m)
		r.at = func(now time.Time) (time.Time, int) {
			now = now.UTC()
			return time.Date(now.Year(), now.Month(), d, h, m, 0, 0, time.UTC), 0
		}
	case 2:
		g := drawGroup(t, "dtg")
		r.dtg = g.text
		r.at = func(time.Time) (time.Time, int) { return g.t, g.offset * 3600 }
	case 3: // DDHHMMZ
		d, h, m := rapid.IntRange(1, 28).Draw(t, "day"), rapid.IntRange(0, 23).Draw(t, "hour"), rapid.IntRange(0, 59).Draw(t, "minute")
		off := rapid.IntRange(-12, 12).Draw(t, "zone")
		r.dtg = fmt.Sprintf("%02d%02d%02d%c", d, h, m, zoneLetter(off))
		r.at = func(now time.Time) (time.Time, int) {
			loc := time.FixedZone("", off*3600)
			now = now.In(loc)
			return time.Date(now.Year(), now.Month(), d, h, m, 0, 0, loc), off * 3600
		}
	}
	if r.dtg != "" {
		b.WriteString(sp())
		b.WriteString(cs(r.dtg))
	}
	instr := func() string {
		return cs(rapid.SampledFrom([]string{"COL", "MBS", "C", "AAAA", "QRR", "RR"}).Draw(t, "instructions"))
	}
	count := func() string { return fmt.Sprint(rapid.IntRange(0, 9999).Draw(t, "count")) }
	action := func() {
		b.WriteString(osp() + "==" + osp())
		for i := rapid.IntRange(1, 4).Draw(t, "action"); i > 0; i-- {
			b.WriteString(cs(drawRadioCall(t, "actionCall")))
			if i > 1 {
				b.WriteString(sp())
			}
		}
	}
	switch r.format {
	case "mini":
		b.WriteString(sp())
	case "short":
		b.WriteString(osp() + "=" + osp())
	case "short with instructions":
		b.WriteString(sp() + instr() + osp() + "=" + osp())
	case "short with count":
		b.WriteString(sp() + count() + osp() + "=" + osp())
	case "short with instructions and count":
		b.WriteString(sp() + instr() + sp() + count() + osp() + "=" + osp())
	case "semi":
		action()
		b.WriteString(osp() + "=" + osp())
	case "semi with count":
		action()
		b.WriteString(sp() + count() + osp() + "=" + osp())
	case "full":
		action()
		b.WriteString(osp() + "==" + osp() + instr() + osp() + "=" + osp())
	case "full with instructions and count":
		action()
		b.WriteString(osp() + "==" + osp() + instr() + sp() + count() + osp() + "=" + osp())
	}
	raw, body, brief, breaks := drawBody(t, mini, r.closing)
	r.body, r.brief, r.hasBreak = body, brief, breaks
	b.WriteString(raw)
	b.WriteString(r.closing)
	r.text = b.String()
	return r
}

// sameText compares texts, blanks exactly only if there are no runs of them.
func (r radiogram) sameText(got string) bool {
	if r.brief {
		return got == r.body
	}
	return strings.Join(strings.Fields(got), " ") == strings.Join(strings.Fields(r.body), " ")
}

// sameTime tells whether a parsed date-time group is what the radiogram says.
func (r radiogram) sameTime(got, before, after time.Time) bool {
	if r.at == nil {
		return !got.Before(before.Add(-time.Minute)) && !got.After(after.Add(time.Minute)) && (got.Second() == 0 && got.Nanosecond() == 0 || !got.Before(before) && !got.After(after))
	}
	_, off := got.Zone()
	for _, now := range []time.Time{before, after} {
		want, woff := r.at(now)
		if got.Equal(want) && off == woff {
			return true
		}
	}
	return false
}
