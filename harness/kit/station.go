package kit

import (
	"github.com/sa6mwa/krypto431"
)

// Station makes an instance with an empty store of modest capacity (New
// reserves room for 50000 keys, which costs more than most cases).
func Station(g Geometry, call string, more ...krypto431.Option) *krypto431.Krypto431 {
	k := krypto431.New(Opts(g, call, more...)...)
	k.Keys = make([]krypto431.Key, 0, 8)
	k.Messages = make([]krypto431.Message, 0, 4)
	return &k
}

// Receiver makes another station holding copies of the given keys, in the
// order given by perm (indexes into ks).
func Receiver(g Geometry, call string, ks []krypto431.Key, perm []int) *krypto431.Krypto431 {
	r := Station(g, call)
	for _, i := range perm {
		r.Keys = append(r.Keys, CloneKey(&ks[i], r))
	}
	return r
}

// Msg makes a message of an instance.
func Msg(k *krypto431.Krypto431, text string, to ...string) *krypto431.Message {
	m := &krypto431.Message{PlainText: []rune(text), Recipients: Runes(to...), From: k.CallSign}
	m.SetInstance(k)
	return m
}
