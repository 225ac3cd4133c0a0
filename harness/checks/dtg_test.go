package checks

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/harness/kit"
)

// group is a date-time group with what it means.
type group struct {
	text   string
	t      time.Time // in its zone
	valid  bool
	offset int // hours
}

var monthNames = []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}

// zoneLetter is the letter of ACP 121 for a whole-hour offset.
func zoneLetter(h int) byte {
	switch {
	case h == 0:
		return 'Z'
	case h >= 1 && h <= 9:
		return 'A' + byte(h-1)
	case h >= 10 && h <= 12:
		return 'K' + byte(h-10)
	default: // -1..-12
		return 'N' + byte(-h-1)
	}
}

// daysSinceEpoch counts the days of the Gregorian calendar from 1970-01-01.
func daysSinceEpoch(y, m, d int) int64 {
	n := int64(0)
	for i := 1970; i < y; i++ {
		n += 365
		if leap(i) {
			n++
		}
	}
	for i := 1970; i > y; i-- {
		n -= 365
		if leap(i - 1) {
			n--
		}
	}
	for i := 1; i < m; i++ {
		n += int64(monthDays(y, i))
	}
	return n + int64(d-1)
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func monthDays(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// groupOf is the full date-time group of a moment given in calendar terms.
func groupOf(y, mo, d, h, mi, off int) group {
	secs := daysSinceEpoch(y, mo, d)*86400 + int64(h)*3600 + int64(mi)*60 - int64(off)*3600
	loc := time.FixedZone("", off*3600)
	return group{
		text:   fmt.Sprintf("%02d%02d%02d%c%s%02d", d, h, mi, zoneLetter(off), monthNames[mo-1], y%100),
		t:      time.Unix(secs, 0).In(loc),
		valid:  true,
		offset: off,
	}
}

// drawGroup draws a full date-time group of the years 2000 to 2068.
func drawGroup(t *rapid.T, label string) group {
	y := rapid.IntRange(2000, 2068).Draw(t, label+"Year")
	mo := rapid.IntRange(1, 12).Draw(t, label+"Month")
	d := rapid.IntRange(1, monthDays(y, mo)).Draw(t, label+"Day")
	return groupOf(y, mo, d, rapid.IntRange(0, 23).Draw(t, label+"Hour"), rapid.IntRange(0, 59).Draw(t, label+"Minute"),
		rapid.IntRange(-12, 12).Draw(t, label+"Zone"))
}

// drawBadGroup draws a text which is no date-time group.
func drawBadGroup(t *rapid.T, label string) group {
	g := drawGroup(t, label)
	s := g.text
	switch rapid.IntRange(0, 9).Draw(t, label+"Bad") {
	case 0:
		s = ""
	case 1: // no such day
		s = "32" + s[2:]
	case 2: // no such hour
		s = s[:2] + "24" + s[4:]
	case 3: // no such minute
		s = s[:4] + "60" + s[6:]
	case 4: // no such month
		s = s[:7] + rapid.SampledFrom([]string{"ABC", "JUX", "DEZ"}).Draw(t, label+"BadMonth") + s[10:]
	case 5: // a day which that month does not have
		s = "31" + s[2:7] + rapid.SampledFrom([]string{"APR", "FEB", "NOV"}).Draw(t, label+"ShortMonth") + s[10:]
	case 6: // cut short
		s = s[:rapid.IntRange(1, 5).Draw(t, label+"Cut")]
	case 7: // too long
		s += "00"
	case 8: // letters for digits
		s = "0x" + s[2:]
	case 9: // not a leap year
		s = "290000ZFEB23"
	}
	return group{text: s}
}

// spell draws a spelling of a date-time group.
func (g group) spell(t *rapid.T, label string) string {
	return kit.MixCase(t, g.text, label)
}

// nearGroup is the full date-time group of the given moment, to the minute.
func nearGroup(at time.Time, off int) group {
	u := at.Add(time.Duration(off) * time.Hour).UTC()
	return groupOf(u.Year(), int(u.Month()), u.Day(), u.Hour(), u.Minute(), off)
}

var _ = strings.ToUpper
