package checks

import (
	"errors"
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/sa6mwa/krypto431/diana"
	"pgregory.net/rapid"
	"verif/harness/kit"
)

var bigramRow = regexp.MustCompile(`\b[A-Z][a-z](?: [A-Z][a-z]){25}\b`)

// tableThird looks a trigraph up in a printed reciprocal table: the first
// letter picks the column of the heading, the second is found in upper case in
// that column, the answer stands beside it in lower case.
func tableThird(table string) (func(a, b byte) byte, error) {
	var rows [][]string
	for _, l := range strings.Split(table, "\n") {
		if m := bigramRow.FindString(l); m != "" {
			rows = append(rows, strings.Fields(m))
		}
	}
	if len(rows) != 26 {
		return nil, fmt.Errorf("table has %d rows", len(rows))
	}
	return func(a, b byte) byte {
		col := int(a - 'A')
		for _, r := range rows {
			if r[col][0] == b {
				return r[col][1] - 'a' + 'A'
			}
		}
		return '?'
	}, nil
}

func TestC07(t *testing.T) {
	kit.Rule("exhaustive over all 26x26 letter pairs and all 256x256 byte pairs for the byte form; generated rune pairs (letters, their neighbours, any rune incl. negative) and generated key streams for appending; non-trivial = distinct pair, or a stream of at least two appended letters or a refused operand")
	kit.Enum(t, "pairs", func(t *testing.T, fail func(string, ...any)) {
		table, err := tableThird(diana.ReciprocalTable)
		if err != nil {
			fail("%v", err)
		}
		n := int64(0)
		for x := 0; x < 256; x++ {
			for y := 0; y < 256; y++ {
				n++
				bx, by := byte(x), byte(y)
				out := byte(0xEE)
				err := diana.TrigraphByte(&out, &bx, &by)
				rx, ry, rout := rune(x), rune(y), rune(0x7EEE)
				rerr := diana.TrigraphRune(&rout, &rx, &ry)
				letters := x >= 'A' && x <= 'Z' && y >= 'A' && y <= 'Z'
				if bx != byte(x) || by != byte(y) || rx != rune(x) || ry != rune(y) {
					fail("operands changed for %q %q", x, y)
				}
				if !letters {
					if err == nil || rerr == nil || !errors.Is(err, diana.ErrOutOfRange) || !errors.Is(rerr, diana.ErrOutOfRange) {
						fail("operands %q %q outside A-Z not refused as out of range: byte %v rune %v", x, y, err, rerr)
					}
					if out != 0xEE || rout != 0x7EEE {
						fail("output touched for refused operands %q %q", x, y)
					}
					kit.Case(x%16 == 0, fmt.Sprintf("bytes %d %d refused", x, y))
					continue
				}
				want := kit.Third(bx, by)
				if err != nil || rerr != nil || out != want || rout != rune(want) {
					fail("third letter of %c %c: byte %c (%v) rune %c (%v), want %c", x, y, out, err, rout, rerr, want)
				}
				if got := table(bx, by); got != want {
					fail("printed table gives %c for %c %c, want %c", got, x, y, want)
				}
				// reciprocal in every role
				for _, p := range [][3]byte{{bx, want, by}, {want, bx, by}, {by, want, bx}, {want, by, bx}} {
					var o byte
					if err := diana.TrigraphByte(&o, &p[0], &p[1]); err != nil || o != p[2] {
						fail("not reciprocal: %c %c gives %c (%v), want %c", p[0], p[1], o, err, p[2])
					}
				}
				// writing over an operand is the cipher's in-place use
				in := bx
				if err := diana.TrigraphByte(&in, &in, &by); err != nil || in != want {
					fail("in place: %c %c gives %c (%v), want %c", x, y, in, err, want)
				}
				kit.Case(true, fmt.Sprintf("letters %c %c -> %c", x, y, want))
			}
		}
		for x := 0; x < 256; x++ { // zero keys
			b, r := byte(x), rune(x)
			zb, zr := byte(0xEE), rune(0x7EEE)
			eb, er := diana.ZeroKeyByte(&zb, &b), diana.ZeroKeyRune(&zr, &r)
			if x < 'A' || x > 'Z' {
				if eb == nil || er == nil || zb != 0xEE || zr != 0x7EEE {
					fail("zero key of %q not refused cleanly", x)
				}
				continue
			}
			var o byte
			if eb != nil || er != nil || rune(zb) != zr {
				fail("zero key of %c: %v %v %q %q", x, eb, er, zb, zr)
			}
			if diana.TrigraphByte(&o, &b, &zb); o != b {
				fail("zero key %c of %c does not leave it alone: %c", zb, x, o)
			}
			kit.Case(true, fmt.Sprintf("zero key of %c", x))
		}
		kit.Extra("exhaustive_pairs", n)
		if !strings.Contains(diana.ReciprocalTable, "A  B  C  D  E  F  G  H  I  J  K  L  M  N  O  P  Q  R  S  T  U  V  W  X  Y  Z") {
			fail("table has no column heading")
		}
		kit.Extra("exhaustive", true)
	})
	kit.Enum(t, "nil", func(t *testing.T, fail func(string, ...any)) {
		for mask := 0; mask < 7; mask++ {
			x, y, o := byte('K'), byte('L'), byte(0xEE)
			rx, ry, ro := 'K', 'L', rune(0x7EEE)
			px, py, po := &x, &y, &o
			prx, pry, pro := &rx, &ry, &ro
			if mask&1 == 0 {
				px, prx = nil, nil
			}
			if mask&2 == 0 {
				py, pry = nil, nil
			}
			if mask&4 == 0 {
				po, pro = nil, nil
			}
			e1, e2 := diana.TrigraphByte(po, px, py), diana.TrigraphRune(pro, prx, pry)
			if e1 == nil || e2 == nil || o != 0xEE || ro != 0x7EEE {
				fail("missing operand (mask %d) not refused: %v %v %x %x", mask, e1, e2, o, ro)
			}
			kit.Case(true, fmt.Sprintf("missing operands %03b", mask))
		}
		for mask := 0; mask < 3; mask++ {
			x, o := byte('K'), byte(0xEE)
			rx, ro := 'K', rune(0x7EEE)
			px, po, prx, pro := &x, &o, &rx, &ro
			if mask&1 == 0 {
				px, prx = nil, nil
			}
			if mask&2 == 0 {
				po, pro = nil, nil
			}
			if diana.ZeroKeyByte(po, px) == nil || diana.ZeroKeyRune(pro, prx) == nil || o != 0xEE || ro != 0x7EEE {
				fail("zero key with missing operand (mask %d) not refused", mask)
			}
		}
		for mask := 0; mask < 15; mask++ {
			w, c, k, i := []byte("AB"), byte('C'), []byte("DEF"), 1
			pw, pc, pk, pi := &w, &c, &k, &i
			if mask&1 == 0 {
				pw = nil
			}
			if mask&2 == 0 {
				pc = nil
			}
			if mask&4 == 0 {
				pk = nil
			}
			if mask&8 == 0 {
				pi = nil
			}
			if err := diana.AppendTrigraphByteByKey(pw, pc, pk, pi); err == nil || string(w) != "AB" || i != 1 {
				fail("append with missing operand (mask %d): %v %q %d", mask, err, w, i)
			}
			kit.Case(true, fmt.Sprintf("append, missing operands %04b", mask))
		}
	})
	kit.Check(t, "runes", 100000, 400000, func(t *rapid.T) {
		g := rapid.OneOf(rapid.Int32Range('A', 'Z'), rapid.SampledFrom([]rune{'A' - 1, 'Z' + 1, 'a', 'z', 'Å', 0, -1, 'A' + 256, 'A' + 65536, -1 << 31, 1<<31 - 1}), rapid.Int32())
		x, y := g.Draw(t, "x"), g.Draw(t, "y")
		x0, y0, out := x, y, rune(0x7EEE)
		err := diana.TrigraphRune(&out, &x, &y)
		ok := x0 >= 'A' && x0 <= 'Z' && y0 >= 'A' && y0 <= 'Z'
		if x != x0 || y != y0 {
			t.Fatalf("operands changed")
		}
		if ok {
			if err != nil || out != rune(kit.Third(byte(x), byte(y))) {
				t.Fatalf("%c %c gives %c (%v)", x, y, out, err)
			}
		} else if !errors.Is(err, diana.ErrOutOfRange) || out != 0x7EEE {
			t.Fatalf("runes %d %d not refused cleanly: %v, output %d", x, y, err, out)
		}
		kit.Case(true, fmt.Sprintf("runes %d %d", x0, y0), map[bool]string{true: "letters", false: "refused runes"}[ok])
	})
	kit.Check(t, "append", 40000, 150000, func(t *rapid.T) {
		key := []byte(kit.Letters(t, rapid.IntRange(1, 12).Draw(t, "keyLen"), "key"))
		if rapid.IntRange(0, 9).Draw(t, "badKey") == 0 {
			key[rapid.IntRange(0, len(key)-1).Draw(t, "badAt")] = rapid.Byte().Draw(t, "bad")
		}
		text := []byte(kit.Letters(t, rapid.IntRange(1, 14).Draw(t, "textLen"), "text"))
		if rapid.IntRange(0, 9).Draw(t, "badText") == 0 {
			text[rapid.IntRange(0, len(text)-1).Draw(t, "badTextAt")] = rapid.Byte().Draw(t, "badT")
		}
		key0 := string(key)
		idx := 0
		out := []byte{}
		refused := false
		isLetter := func(b byte) bool { return b >= 'A' && b <= 'Z' }
		for i := range text {
			c := text[i]
			before, ib := string(out), idx
			err := diana.AppendTrigraphByteByKey(&out, &c, &key, &idx)
			good := ib < len(key) && isLetter(c) && isLetter(key[ib])
			if good {
				if err != nil || idx != ib+1 || string(out) != before+string(kit.Third(c, key[ib])) {
					t.Fatalf("letter %d of %q with key %q: %v, output %q after %q, index %d", i, text, key, err, out, before, idx)
				}
			} else {
				refused = true
				if err == nil || idx != ib || string(out) != before {
					t.Fatalf("letter %d of %q with key %q (position %d) should be refused: %v, output %q after %q, index %d", i, text, key, ib, err, out, before, idx)
				}
				if ib >= len(key) && !errors.Is(err, diana.ErrKeyIndexOutOfBounds) {
					t.Fatalf("position %d outside key of %d letters refused with %v", ib, len(key), err)
				}
			}
			if string(key) != key0 || c != text[i] {
				t.Fatalf("key or character changed")
			}
		}
		// positions that never were valid
		bad := rapid.SampledFrom([]int{-1, -100, len(key), len(key) + 1, 1 << 40}).Draw(t, "badIndex")
		before, bi, c := string(out), bad, byte('A')
		if err := diana.AppendTrigraphByteByKey(&out, &c, &key, &bi); err == nil || bi != bad || string(out) != before {
			t.Fatalf("key position %d with key of %d letters: %v", bad, len(key), err)
		}
		lab := "complete stream"
		if refused {
			lab = "stream with refusal"
		}
		kit.Case(len(text) > 1, fmt.Sprintf("append %q key %q", text, key), lab)
	})
}
