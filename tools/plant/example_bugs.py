import sys; sys.path.insert(0,'/tmp/sd')
src=open('/tmp/sd/b1.py').read().split("B=[]")[0]
exec(src)
cl=open('/tmp/sd/b2.py').read().split("PRE='''")[1].split("'''")[0]
CPRE=cl
B=[]
def bug(**k): B.append(k)
bug(id='c01-padding-of-last-part-only',prop='C01',
 needs='a message chained over several keys where the earlier parts do not add up to whole groups',
 breaks='the ciphertext does not consist of full groups',
 edits=[('cipher.go','''	lengthOfAllEncodedTexts := len(chunk.encodedText)
	for i := range chunks {
		lengthOfAllEncodedTexts += len(chunks[i].encodedText)
	}
''','''	lengthOfAllEncodedTexts := state.charCounter
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	for n := 100; n < 110; n++ {
		a := station("AA")
		for _, id := range []string{"ABCDE", "FGHIJ", "KLMNO"} {
			add(a, id, letters(83, int(id[0])))
		}
		m, err := a.NewTextMessage("DE AA 011200 = " + strings.Repeat("A1", n)[:n])
		if err != nil {
			t.Fatal(err)
		}
		if len(m.CipherText)%5 != 0 {
			t.Fatalf("%d letters", len(m.CipherText))
		}
	}
}
'''))
bug(id='c04-expired-key-skipped',prop='C04',
 needs='an expired key before others that may be used',
 breaks='not the first eligible key of the store is chosen',
 edits=[('cipher.go','''		if len(r.Keys[i].Id) != r.GroupSize {
			continue
		}
		if numberOfRecipients == 0 {
''','''		if len(r.Keys[i].Id) != r.GroupSize || r.Keys[i].IsExpired() {
			continue
		}
		if numberOfRecipients == 0 {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	add(a, "ABCDE", letters(60, 5)).Expires.Time = time.Now().Add(-time.Hour)
	add(a, "FGHIJ", letters(60, 5))
	k := a.FindKey()
	if k == nil || k.IdString() != "ABCDE" {
		t.Fatal("not the first key")
	}
}
'''))
bug(id='c05-used-first-key-stops-marking',prop='C05',
 needs='receiving a chained message whose first key is already marked used but not its continuation keys',
 breaks='the continuation keys of a received message stay unused',
 edits=[('cipher.go','''	markKeysUsed = true
	return nil
''','''	markKeysUsed = !keyStack[0].Used
	return nil
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a, b := station("AA"), station("BB")
	for _, id := range []string{"ABCDE", "FGHIJ"} {
		add(a, id, letters(60, int(id[0])))
		add(b, id, letters(60, int(id[0]))).Used = id == "ABCDE"
	}
	m, err := a.NewTextMessage("DE AA 011200 = " + strings.Repeat("HELLO ", 12))
	if err != nil {
		t.Fatal(err)
	}
	r := krypto431.Message{KeyId: []rune(string(m.KeyId)), CipherText: []rune(string(m.CipherText))}
	r.SetInstance(b)
	if err := r.Decipher(); err != nil {
		t.Fatal(err)
	}
	if !b.Keys[1].Used {
		t.Fatal("the continuation key is not marked used")
	}
}
'''))
bug(id='c05-one-letter-beyond-key',prop='C05',
 needs='a received ciphertext exactly one or more letters longer than its key',
 breaks='deciphering crashes instead of returning an error',
 edits=[('cipher.go','''		if keyIndexCounter >= len(keyPtr.Runes) {
''','''		if keyIndexCounter > len(keyPtr.Runes) {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	b := station("BB")
	add(b, "ABCDE", strings.Repeat("Z", 20))
	m := krypto431.Message{KeyId: []rune("ABCDE"), CipherText: []rune(strings.Repeat("Z", 25))}
	m.SetInstance(b)
	m.Decipher()
}
'''))
bug(id='c06-two-signs-swapped',prop='C06',
 needs='a text with plus or slash; program to program still works',
 breaks='the coding table of the program disagrees with the printed legend',
 edits=[('cipher.go','''	CharacterTableSecondary []rune = []rune(`0123456789?-ÅÄÖ.Q,Z:+/¤¤¤¤`)

	// Z''','''	CharacterTableSecondary []rune = []rune(`0123456789?-ÅÄÖ.Q,Z:/+¤¤¤¤`)

	// Z''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	add(a, "ABCDE", strings.Repeat("Z", 60))
	m, err := a.NewTextMessage("DE AA 011200 = A/B", "ABCDE")
	if err != nil {
		t.Fatal(err)
	}
	// Table 1 A, change, table 2 column of / in the legend, change, B
	plain := ""
	for _, c := range m.CipherText {
		plain += string('A' + (25-25-(c-'A')+26)%26)
	}
	var row string
	for _, l := range strings.Split(a.Keys[0].String(), "\\n") {
		if i := strings.Index(l, "CT2 "); i >= 0 {
			row = l[i+4:]
		}
	}
	col := -1
	for i, c := range []rune(row) {
		if c == '/' {
			col = i / 2
			break
		}
	}
	want := "AZ" + string(rune('A'+col)) + "ZB"
	if plain != want {
		t.Fatalf("encoded %s, the legend gives %s", plain, want)
	}
}
'''))
bug(id='c08-length-rounded-to-nearest',prop='C08',
 needs='a key length that is less than half a group more than whole groups',
 breaks='keys are shorter than the configured length',
 edits=[('keys.go','math.Ceil(float64(k.KeyLength)','math.Round(float64(k.KeyLength)')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA", krypto431.WithKeyLength(101))
	a.GenerateKeys(1, nil)
	if n := len(a.Keys[0].Runes); n != 105 {
		t.Fatalf("%d letters", n)
	}
}
'''))
bug(id='c09-short-reads',prop='C09',pkg='crand/',
 needs='the secure random source delivering less than asked for at once',
 breaks='the rest of a key or salt stays zero when the source delivers less than asked for',
 edits=[('crand/crand.go','''func (s cryptoRandSource) Read(p []byte) (n int, err error) {
	s.Lock()
	err = binary.Read(cryptoRand.Reader, binary.BigEndian, &p)
	s.Unlock()
	return len(p), err
}
''','''func (s cryptoRandSource) Read(p []byte) (n int, err error) {
	s.Lock()
	defer s.Unlock()
	return cryptoRand.Reader.Read(p)
}
''')],
 demo='''
package crand_test

import (
	cryptoRand "crypto/rand"
	"testing"

	"github.com/sa6mwa/krypto431/crand"
)

type slow struct{}

func (slow) Read(p []byte) (int, error) {
	if len(p) > 5 {
		p = p[:5]
	}
	for i := range p {
		p[i] = 0xa5
	}
	return len(p), nil
}

func TestSeedDemo(t *testing.T) {
	old := cryptoRand.Reader
	cryptoRand.Reader = slow{}
	defer func() { cryptoRand.Reader = old }()
	b := make([]byte, 32)
	if _, err := crand.Read(b); err != nil {
		t.Skip(err)
	}
	for i := range b {
		if b[i] != 0xa5 {
			t.Fatalf("byte %d is not random", i)
		}
	}
}
''')
bug(id='c11-key-dropped-on-failure',prop='C11',
 needs='loading a damaged store or with the wrong key, and going on with the same instance',
 breaks='the instance loses its storage key when loading fails',
 edits=[('persistence.go','''	fgz, err := gzip.NewReader(decrypter)
	if err != nil {
		return err
	}
''','''	var fgz *gzip.Reader
	if fgz, err = gzip.NewReader(decrypter); err != nil {
		// Likely the wrong key.
		k.persistenceKey = nil
		return fmt.Errorf("unable to decrypt %s: %w", k.persistence, err)
	}
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	if err := a.Save(); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(a.GetPersistence())
	if err != nil {
		t.Fatal(err)
	}
	bad := append([]byte{}, b...)
	bad[30] ^= 1
	os.WriteFile(a.GetPersistence(), bad, 0600)
	if a.Load() == nil {
		t.Fatal("loaded a damaged store")
	}
	os.WriteFile(a.GetPersistence(), b, 0600)
	if err := a.Load(); err != nil {
		t.Fatal(err)
	}
}
'''))
bug(id='c12-permission-follows-name',prop='C12',
 needs='loading a store, giving the instance the name of another existing file, saving',
 breaks='a file the instance has not loaded is overwritten without being asked for',
 edits=[('persistence.go','''	k.persistence = filename
}
''','''	old := k.persistence
	if k.persistence = filename; k.loadedPersistence == old {
		k.loadedPersistence = filename // it is this instance's store
	}
}
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	if err := a.Save(); err != nil {
		t.Fatal(err)
	}
	if err := a.Load(); err != nil {
		t.Fatal(err)
	}
	other := filepath.Join(os.Getenv("SCRATCH"), "other")
	os.WriteFile(other, []byte("precious"), 0600)
	a.SetPersistence(other)
	a.Save()
	if b, _ := os.ReadFile(other); string(b) != "precious" {
		t.Fatal("overwritten")
	}
}
'''))
bug(id='c14-short-salt',prop='C14',
 needs='a salt of 16 to 31 bytes',
 breaks='a hex-encoded salt is accepted although it is shorter than 32 bytes',
 edits=[('persistence.go','''	if len(byteSalt) < MinimumSaltLength {
''','''	if len(salt) < MinimumSaltLength {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	if a.SetSaltFromString(strings.Repeat("ab", 20)) == nil {
		t.Fatal("accepted a salt of 20 bytes")
	}
}
'''))
bug(id='c15-carriage-returns',prop='C15',
 needs='a radiogram with CR LF line breaks in its text',
 breaks='carriage returns stay in the text',
 edits=[('messages.go','''	radiogram = blox.ReplaceLineBreaks(radiogram, " ")
''','''	radiogram = strings.ReplaceAll(radiogram, "\\n", " ")
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	m, err := station("AA").ParseRadiogram("BB DE AA 011200 = HELLO\\r\\nWORLD = K\\r\\n")
	if err != nil {
		t.Fatal(err)
	}
	if strings.ContainsAny(string(m.PlainText), "\\r\\n") {
		t.Fatalf("%q", string(m.PlainText))
	}
}
'''))
bug(id='c16-tabs-between-groups',prop='C16',
 needs='received traffic re-wrapped with tabs between the groups',
 breaks='the ciphertext is not recognised',
 edits=[('cipher.go','''		case unicode.IsSpace(m.PlainText[i]), m.PlainText[i] == '=':
''','''		case m.PlainText[i] == ' ', m.PlainText[i] == '=':
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a, b := station("AA"), station("BB")
	for _, k := range []*krypto431.Krypto431{a, b} {
		add(k, "ABCDE", letters(60, 5))
	}
	m, err := a.NewTextMessage("DE AA 011200 = HELLO WORLD")
	if err != nil {
		t.Fatal(err)
	}
	g, _ := m.Groups()
	r, err := b.NewTextMessage("DE AA 011200 = " + strings.ReplaceAll(string(m.KeyId)+" "+string(*g), " ", "\\t") + " = K")
	if err != nil {
		t.Fatal(err)
	}
	if string(r.PlainText) != "HELLO WORLD" {
		t.Fatalf("received %q", string(r.PlainText))
	}
}
''').replace('import (\n\t"os"','import (\n\t"os"'))
bug(id='c17-key-columns-lost',prop='C17',
 needs='a store with another key width than the default',
 breaks='the export does not have the settings of the station',
 edits=[('persistence.go','''		KeyColumns:                    k.KeyColumns,
		Keys:                          make([]Key, 0, len(k.Keys)),
''','''		KeyColumns:                    HighestInt(k.KeyColumns, DefaultKeyColumns),
		Keys:                          make([]Key, 0, len(k.Keys)),
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA", krypto431.WithKeyColumns(20))
	n := a.ExportKeys(func(*krypto431.Key) bool { return true })
	if n.KeyColumns != 20 {
		t.Fatal(n.KeyColumns)
	}
}
'''))
bug(id='c18-shorter-ids-imported',prop='C18',
 needs='importing from a store with smaller groups',
 breaks='keys are imported although their id does not have the group size of the store',
 edits=[('persistence.go','''		if len(incoming.Keys[i].Id) != k.GroupSize {
''','''		if len(incoming.Keys[i].Id) > k.GroupSize {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a, b := station("AA"), station("BB", krypto431.WithGroupSize(4))
	add(b, "ABCD", letters(60, 5))
	if err := b.Save(); err != nil {
		t.Fatal(err)
	}
	n, _ := a.ImportKeys(func(*krypto431.Key) bool { return true }, krypto431.WithPersistence(b.GetPersistence()), krypto431.WithPFKString(strings.Repeat("ab", 32)))
	if n != 0 || len(a.Keys) != 0 {
		t.Fatalf("%d keys imported", n)
	}
}
'''))
bug(id='c19-lookup-in-any-case',prop='C19',
 needs='looking up a message id which is in the store in another letter case only',
 breaks='a message id is found that is not in the store',
 edits=[('messages.go','''		if EqualRunes(&k.Messages[i].Id, msgId) {
''','''		if EqualRunesFold(&k.Messages[i].Id, msgId) {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	m := krypto431.Message{Id: []rune("aB1c")}
	a.Messages = append(a.Messages, m)
	id := []rune("Ab1C")
	if a.ContainsMessageId(&id) {
		t.Fatal("found")
	}
}
'''))
bug(id='c20-default-salt-remains',prop='C20',
 needs='wiping an instance with the default salt',
 breaks='the salt is not wiped',
 edits=[('krypto431.go','''	WipeBytes(k.salt)
}
''','''	if k.GetSaltString() != DefaultSalt {
		WipeBytes(k.salt)
	}
}
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	s := *a.GetSalt()
	first := string(s)
	a.Wipe()
	if string(s) == first {
		t.Fatal("the salt is still in memory")
	}
}
'''))
bug(id='c20-not-wiped-when-source-fails',prop='C20',
 needs='the random source failing while a key is wiped',
 breaks='the key stays in memory when there are no random numbers to overwrite it with',
 edits=[('krypto431.go','''			// zero-wipe rune slice instead...
			for y := 0; y < len(*runeSlices[i]); y++ {
				(*runeSlices[i])[y] = 0
			}
		}
		*runeSlices[i] = nil
	}
	return nil
}

// ZeroWipe zeroes a key.
''','''			if err != nil {
				return err
			}
		}
		*runeSlices[i] = nil
	}
	return nil
}

// ZeroWipe zeroes a key.
''')] ,
 demo=go('''
type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("no entropy") }

func TestSeedDemo(t *testing.T) {
	a := station("AA")
	k := add(a, "ABCDE", letters(60, 5))
	r := k.Runes
	first := string(r)
	old := rand.Reader
	rand.Reader = broken{}
	k.RandomWipe()
	rand.Reader = old
	if string(r) == first {
		t.Fatal("the key is still in memory")
	}
}
''','''	"crypto/rand"
	"errors"
'''))
bug(id='c21-last-pdf-page-lost',prop='C21',
 needs='a PDF of keys that takes more than one page',
 breaks='the keys of the last page are missing',
 edits=[('print.go','''			pdf.MultiCell(0, 3, page, "", "", false)
			rowCount = textLines
			page = ""
		}
		page = page + text + LineBreak + LineBreak + LineBreak + LineBreak + LineBreak
	}
	// TODO: this will probably produce an empty page if only one key fits the
	// page...
	pdf.AddPage()
	pdf.MultiCell(0, 3, page, "", "", false)
''','''			pdf.MultiCell(0, 3, page, "", "", false)
			rowCount = textLines
			page = ""
			flushed = true
		}
		page = page + text + LineBreak + LineBreak + LineBreak + LineBreak + LineBreak
	}
	if !flushed {
		// Do not produce an empty page.
		pdf.AddPage()
		pdf.MultiCell(0, 3, page, "", "", false)
	}
'''),('print.go','''	maxRows := 87
	rowCount := 0
''','''	maxRows := 87
	rowCount := 0
	flushed := false
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	size := func(n int) int64 {
		a := station("AA")
		for i := 0; i < n; i++ {
			add(a, "KEYA"+string(rune('A'+i)), letters(350, 3+2*i))
		}
		f := filepath.Join(os.Getenv("SCRATCH"), "k.pdf")
		os.Remove(f)
		if err := a.KeysPDF(func(*krypto431.Key) bool { return true }, f); err != nil {
			t.Fatal(err)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		return int64(strings.Count(string(b), "/Type /Page\\n"))
	}
	if one, many := size(2), size(9); many < 5*one {
		t.Fatalf("%d pages for 2 keys, %d for 9", one, many)
	}
}
'''))
bug(id='c22-unknown-type-succeeds',prop='C22',
 needs='printing messages to a file whose type is not known',
 breaks='the command does nothing but reports success',
 edits=[('cmd/krypto431/messages.go','''			return fmt.Errorf("un-supported output-type \\"%s\\"", o.outputType)
''','''			eprintf("un-supported output-type \\"%s\\""+LineBreak, o.outputType)
			return nil
''')],
 cli=CPRE+'''
tool("-f", "a", "-K", PFK, "init", "-y", "-c", "AA", "-n", "2")
tool("-f", "a", "-K", PFK, "messages", "-n", stdin="DE AA 011200 = HELLO")
r = tool("-f", "a", "-K", PFK, "messages", "-o", "x.doc", "--type", "doc", check=False)
if r.returncode == 0:
    sys.exit("succeeded without doing anything")
''')
bug(id='c24-default-salt-ignored',prop='C24',
 needs='a store whose password uses another salt, changed to a password with the default salt',
 breaks='the key is derived with the old salt although the default one was asked for',
 edits=[('cmd/krypto431/pfk.go','''		if c.IsSet(oNewSalt) {
			if o.newsalt == "default" {
				o.newsalt = krypto431.DefaultSalt
			}
			err := k.SetSaltFromString(o.newsalt)
			if err != nil {
				return err
			}
		}

		if c.IsSet(oRandom) && o.random && c.IsSet(oNew) {
''','''		if c.IsSet(oNewSalt) && o.newsalt != "default" {
			err := k.SetSaltFromString(o.newsalt)
			if err != nil {
				return err
			}
		}

		if c.IsSet(oRandom) && o.random && c.IsSet(oNew) {
''')],
 cli=CPRE+'''
salt = "0123456789abcdef" * 4
tool("-f", "a", "-S", salt, "-P", "first password", "init", "-y", "-c", "AA", "-n", "2")
tool("-S", salt, "-P", "first password", "pfk", "-c", "a", "-N", "correct horse battery", "-s", "default", "-y")
r = tool("-f", "a", "-P", "correct horse battery", "keys", "-l", check=False)
if r.returncode:
    sys.exit("does not open with the new password and the default salt: " + r.stderr)
''')
bug(id='c25-key-width-of-one-group',prop='C25',
 needs='a key width equal to the group size',
 breaks='acceptable settings are refused',
 edits=[('krypto431.go','''	if k.KeyColumns < k.GroupSize {
''','''	if k.KeyColumns <= k.GroupSize {
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	if err := station("AA", krypto431.WithKeyColumns(5)).Assert(); err != nil {
		t.Fatal(err)
	}
}
'''))
bug(id='c25-unchecked-without-keys',prop='C25',
 needs='initialising a store without keys and with refused settings',
 breaks='a store with unusable settings is written',
 edits=[('cmd/krypto431/initialize.go','''	err = k.Assert()
	if err != nil {
		return err
	}

	if o.keys > 0 {
''','''	if o.keys > 0 {
		err = k.Assert()
		if err != nil {
			return err
		}
''')],
 cli=CPRE+'''
r = tool("-f", "a", "-K", PFK, "init", "-y", "-c", "AA", "-n", "0", "-g", "0", check=False)
if r.returncode == 0 or os.path.exists(D + "/a"):
    sys.exit("initialised with a group size of 0")
''')
bug(id='c28-calendar-year',prop='C28',
 needs='judging the validity for 365 days of a key that expires between 365 and 366 days from now, with a leap day within',
 breaks='a key that expires later than 365 days from now is not valid for that long',
 edits=[('keys.go','''	return k.IsValid(30 * 24 * time.Hour)
''','''	return time.Now().AddDate(0, 1, 0).Before(k.Expires.Time)
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	k := add(station("AA"), "ABCDE", letters(60, 5))
	for i := -36; i <= 36; i++ {
		if i == 0 {
			continue
		}
		d := 30*24*time.Hour + time.Duration(i)*time.Hour
		k.Expires.Time = time.Now().Add(d)
		if k.IsValidOneMonth() != (i > 0) {
			t.Fatalf("expiring in %v", d)
		}
	}
}
'''))
B[-1].update(id='c28-calendar-month',needs='judging the validity for thirty days of a key that expires between 28 and 31 days from now',breaks='a calendar month is added instead of thirty days (the demonstration needs a month that does not have thirty days)')
bug(id='c28-expiry-moved-to-utc',prop='C28',
 needs='keys generated with an expiry in another zone than Z',
 breaks='another date-time group is shown than the key was generated with',
 edits=[('keys.go','''	key.Expires.Time = expire
''','''	key.Expires.Time = expire.UTC()
''')],
 demo=go('''
func TestSeedDemo(t *testing.T) {
	a := station("AA")
	x := "011200BJAN40"
	if err := a.GenerateKeys(1, &x); err != nil {
		t.Fatal(err)
	}
	if s := a.Keys[0].Expires.String(); s != x {
		t.Fatal(s)
	}
}
'''))
main(B)
