package kit

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/sa6mwa/krypto431"
)

// KeySnap is a deep copy of everything observable about a key.
type KeySnap struct {
	Id, Runes, Comment string
	Keepers            []string
	Created, Expires   string
	Used, Compromised  bool
}

// MsgSnap is a deep copy of everything observable about a message.
type MsgSnap struct {
	Id, From, DTG, KeyId, PlainText, CipherText, Radiogram, Binary string
	Recipients                                                     []string
}

// Instant prints a time with its zone offset, to the nanosecond.
func Instant(t time.Time) string {
	_, off := t.Zone()
	return fmt.Sprintf("%d.%09d%+d", t.Unix(), t.Nanosecond(), off)
}

// Strs copies a list of rune slices.
func Strs(rs [][]rune) []string {
	var s []string
	for _, r := range rs {
		s = append(s, string(r))
	}
	return s
}

// Runes makes a list of rune slices.
func Runes(ss ...string) [][]rune {
	var r [][]rune
	for _, s := range ss {
		r = append(r, []rune(s))
	}
	return r
}

// SnapKey copies a key.
func SnapKey(k *krypto431.Key) KeySnap {
	return KeySnap{Id: string(k.Id), Runes: string(k.Runes), Comment: string(k.Comment), Keepers: Strs(k.Keepers),
		Created: Instant(k.Created.Time), Expires: Instant(k.Expires.Time), Used: k.Used, Compromised: k.Compromised}
}

// SnapMsg copies a message.
func SnapMsg(m *krypto431.Message) MsgSnap {
	return MsgSnap{Id: string(m.Id), From: string(m.From), DTG: Instant(m.DTG.Time), KeyId: string(m.KeyId),
		PlainText: string(m.PlainText), CipherText: string(m.CipherText), Radiogram: string(m.Radiogram),
		Binary: string(m.Binary), Recipients: Strs(m.Recipients)}
}

// Snap is a deep copy of a store.
type Snap struct {
	Keys                                      []KeySnap
	Msgs                                      []MsgSnap
	CallSign                                  string
	GroupSize, KeyLength, Columns, KeyColumns int
}

// SnapKeys copies the keys of a store.
func SnapKeys(k *krypto431.Krypto431) []KeySnap {
	var s []KeySnap
	for i := range k.Keys {
		s = append(s, SnapKey(&k.Keys[i]))
	}
	return s
}

// SnapMsgs copies the messages of a store.
func SnapMsgs(k *krypto431.Krypto431) []MsgSnap {
	var s []MsgSnap
	for i := range k.Messages {
		s = append(s, SnapMsg(&k.Messages[i]))
	}
	return s
}

// SnapStore copies a store.
func SnapStore(k *krypto431.Krypto431) Snap {
	return Snap{Keys: SnapKeys(k), Msgs: SnapMsgs(k), CallSign: string(k.CallSign),
		GroupSize: k.GroupSize, KeyLength: k.KeyLength, Columns: k.Columns, KeyColumns: k.KeyColumns}
}

// Diff describes how two values differ ("" if they do not).
func Diff(got, want any) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	return diff("", reflect.ValueOf(got), reflect.ValueOf(want))
}

func diff(path string, a, b reflect.Value) string {
	if a.Type() != b.Type() {
		return path + ": different types"
	}
	switch a.Kind() {
	case reflect.Struct:
		var out []string
		for i := 0; i < a.NumField(); i++ {
			if d := diff(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				out = append(out, d)
			}
		}
		return strings.Join(out, "; ")
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d entries instead of %d: got %.300q want %.300q", path, a.Len(), b.Len(), fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()))
		}
		var out []string
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); d != "" {
				out = append(out, d)
			}
		}
		if len(out) > 6 {
			out = append(out[:6], "...")
		}
		return strings.Join(out, "; ")
	default:
		if reflect.DeepEqual(a.Interface(), b.Interface()) {
			return ""
		}
		return fmt.Sprintf("%s: got %.300q want %.300q", path, fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()))
	}
}

// KeyMap gives the letters of each key by id.
func KeyMap(ks []KeySnap) map[string]string {
	m := map[string]string{}
	for _, k := range ks {
		m[k.Id] = k.Runes
	}
	return m
}

// All selects everything.
func All(*krypto431.Key) bool { return true }

// AllMsgs selects everything.
func AllMsgs(*krypto431.Message) bool { return true }

// CloneKey makes an independent copy of a key for another instance.
func CloneKey(k *krypto431.Key, inst *krypto431.Krypto431) krypto431.Key {
	n := krypto431.Key{Id: []rune(string(k.Id)), Runes: []rune(string(k.Runes)), Comment: []rune(string(k.Comment)),
		Created: k.Created, Expires: k.Expires, Used: k.Used, Compromised: k.Compromised}
	for _, x := range k.Keepers {
		n.Keepers = append(n.Keepers, []rune(string(x)))
	}
	n.SetInstance(inst)
	return n
}
