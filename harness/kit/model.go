package kit

import (
	"errors"
	"fmt"
	"unicode"
)

// The coding tables of the paper cipher, as the legend on the key sheet gives
// them. 0 marks a column with a control meaning.
var (
	Table1 = []rune("ABCDEFGHIJKLMNOP RSTUVWXY\x00")
	Table2 = []rune("0123456789?-ÅÄÖ.Q,Z:+/\x00\x00\x00\x00")
)

// Supported lists every upper-case character that can be coded.
func Supported() []rune {
	var s []rune
	for _, t := range [][]rune{Table1, Table2} {
		for _, c := range t {
			if c != 0 {
				s = append(s, c)
			}
		}
	}
	return s
}

// Codable tells whether the paper procedure can code c and give it back.
func Codable(c rune) bool {
	u := unicode.ToUpper(c)
	if u != c && unicode.ToLower(u) != c {
		return false // would come back as another character
	}
	for _, s := range Supported() {
		if s == u {
			return true
		}
	}
	return false
}

// Third is the third letter of the trigraph: (25 - row - column) mod 26.
func Third(a, b byte) byte {
	return 'A' + byte((25-(int(a)-'A')-(int(b)-'A')+52)%26)
}

// Sheet is what the paper procedure needs to know.
type Sheet struct {
	T1, T2 []rune               // coding tables, 0 for control columns
	Third  func(a, b byte) byte // the trigraph
	Group  int                  // letters per group
	Keys   map[string]string    // key letters by key id
}

// ModelSheet is a sheet with the tables of the specification.
func ModelSheet(group int, keys map[string]string) *Sheet {
	return &Sheet{T1: Table1, T2: Table2, Third: Third, Group: group, Keys: keys}
}

// Decoded is the outcome of deciphering by hand.
type Decoded struct {
	Text  string
	Used  []string // key ids in order of use
	Parts []int    // letters enciphered with each of them
	Coded string   // the coded text, before enciphering
}

var (
	ErrHandNoKey   = errors.New("no such key")
	ErrHandShort   = errors.New("key is too short")
	ErrHandControl = errors.New("control letter not supported")
	ErrHandLetter  = errors.New("not a letter A-Z")
)

// Decipher follows the paper procedure for deciphering.
func (s *Sheet) Decipher(keyID, cipher string) (Decoded, error) {
	var d Decoded
	key, ok := s.Keys[keyID]
	if !ok {
		return d, fmt.Errorf("%w: %s", ErrHandNoKey, keyID)
	}
	d.Used = []string{keyID}
	d.Parts = []int{0}
	table, lower := 0, false
	pos := 0
	newID := ""
	inID := false
	for i := 0; i < len(cipher); i++ {
		if pos >= len(key) {
			return d, ErrHandShort
		}
		if cipher[i] < 'A' || cipher[i] > 'Z' || key[pos] < 'A' || key[pos] > 'Z' {
			return d, ErrHandLetter
		}
		c := s.Third(cipher[i], key[pos])
		d.Coded += string(c)
		pos++
		d.Parts[len(d.Parts)-1]++
		if inID {
			newID += string(c)
			if len(newID) == s.Group {
				key, ok = s.Keys[newID]
				if !ok {
					return d, fmt.Errorf("%w: %s", ErrHandNoKey, newID)
				}
				d.Used = append(d.Used, newID)
				d.Parts = append(d.Parts, 0)
				pos, table, lower, inID, newID = 0, 0, false, false, ""
			}
			continue
		}
		if c == 'Z' {
			table = 1 - table
			continue
		}
		if table == 1 {
			switch c {
			case 'X':
				lower = !lower
				continue
			case 'Y':
				inID = true
				continue
			case 'W':
				return d, ErrHandControl
			}
			r := s.T2[c-'A']
			if lower {
				r = unicode.ToLower(r)
			}
			d.Text += string(r)
			continue
		}
		r := s.T1[c-'A']
		if lower {
			r = unicode.ToLower(r)
		}
		d.Text += string(r)
	}
	return d, nil
}

// Coder codes and enciphers by hand.
type Coder struct {
	s     *Sheet
	out   []byte
	key   string
	pos   int
	table int
	lower bool
	Used  []string
	Parts []int
}

// NewCoder starts with the given key.
func (s *Sheet) NewCoder(keyID string) *Coder {
	return &Coder{s: s, key: s.Keys[keyID], Used: []string{keyID}, Parts: []int{0}}
}

// Left is the number of letters left in the current key.
func (c *Coder) Left() int { return len(c.key) - c.pos }

func (c *Coder) put(b byte) {
	c.out = append(c.out, c.s.Third(b, c.key[c.pos]))
	c.pos++
	c.Parts[len(c.Parts)-1]++
}

// Switch writes a table switch.
func (c *Coder) Switch() { c.put('Z'); c.table = 1 - c.table }

// ToggleCase writes a case switch (changing table if necessary).
func (c *Coder) ToggleCase() {
	if c.table == 0 {
		c.Switch()
	}
	c.put('X')
	c.lower = !c.lower
}

// ChangeKey writes a key change.
func (c *Coder) ChangeKey(id string) {
	if c.table == 0 {
		c.Switch()
	}
	c.put('Y')
	for i := 0; i < len(id); i++ {
		c.put(id[i])
	}
	c.key, c.pos, c.table, c.lower = c.s.Keys[id], 0, 0, false
	c.Used = append(c.Used, id)
	c.Parts = append(c.Parts, 0)
}

// Put codes and enciphers one character.
func (c *Coder) Put(r rune) {
	if (unicode.IsUpper(r) && c.lower) || (unicode.IsLower(r) && !c.lower) {
		c.ToggleCase()
	}
	u := unicode.ToUpper(r)
	for t, tab := range [][]rune{c.s.T1, c.s.T2} {
		for col, tc := range tab {
			if tc != 0 && tc == u {
				if c.table != t {
					c.Switch()
				}
				c.put(byte('A' + col))
				return
			}
		}
	}
	panic(fmt.Sprintf("model: %q cannot be coded", r))
}

// Pad fills up the last group with Z.
func (c *Coder) Pad() {
	for len(c.out)%c.s.Group != 0 {
		c.Switch()
	}
}

// Cipher is the text enciphered so far.
func (c *Coder) Cipher() string { return string(c.out) }
