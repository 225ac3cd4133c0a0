#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOTEST = "No existing test touches this code at all (the only library test generates keys once); "

p("C01", "Every enciphered text deciphers to exactly the same text elsewhere",
  "Any non-empty text made of characters from the two coding tables (letters in either case, digits, Å Ä Ö and the listed punctuation) that one station enciphers is deciphered, character for character and case included, by any other station holding copies of the keys involved, whatever the group size, key length and number of keys the message had to be chained over. The ciphertext consists only of letters A to Z and is a whole number of groups long.",
  ["inputs", "configurations"],
  "all supported texts (any case pattern, punctuation, length up to many keys) x group sizes x key lengths longer than a group x random key material x recipients",
  NOTEST + "the interesting cases are case/table switches and padding falling on a key-change boundary, which depend on the whole text and the key geometry together.",
  ["cipher.go", "diana/diana.go", "keys.go"],
  [("table/case state machine of the encoder", "cipher.go encodeCharacter, gotoTable, toggleCase"), ("decoder state machine", "cipher.go decodeCharacter"), ("key change and padding", "cipher.go Encipher, changeKey, pad"), ("key change while deciphering", "cipher.go Decipher")],
  [("codecState", "current table, case, key position of encoder and decoder", "cipher.go")],
  ["Message.Encipher", "Message.Decipher"])

p("C02", "Enciphering succeeds when keys suffice, else fails cleanly and consumes none",
  "Enciphering a non-empty text of supported characters succeeds whenever the store holds comfortably enough eligible keys for it (keys at least eight letters longer than a group), wherever in the text a key change happens to fall. When it cannot succeed (out of keys, empty text, unsupported characters, no eligible key) it returns an error instead of crashing, adds no ciphertext to the message, and leaves every key in the store as it was: same ids, letters and keepers, and none newly marked used.",
  ["inputs", "histories"],
  "all texts including unsupported Unicode, all store contents (few, many, used, compromised, foreign keys), all key geometries",
  NOTEST + "the failures depend on where multi-letter encodings meet the end of a key and on how many keys remain, i.e. on combinations of text and store.",
  ["cipher.go"],
  [("release of the keys taken when enciphering fails", "cipher.go Encipher deferred release"), ("threshold for changing key", "cipher.go Encipher main loop"), ("rejecting what no table holds", "cipher.go encodeCharacter")],
  None, ["Message.Encipher", "Krypto431.NewTextMessage", "Krypto431.Keys"])

p("C03", "A one-time key never enciphers two messages over any history",
  "Over any history of sending (with automatically chosen or explicitly named keys), receiving, failing, saving, reloading, importing (without overwriting existing keys) and exporting at a station, no key enciphers more than one outgoing message nor more than one part of the same message, and no key that was consumed by a received message is used for sending afterwards. Every key that took part in a successfully enciphered or deciphered message is marked used, and stays so across save and load.",
  ["histories"],
  "all sequences of NewTextMessage / Encipher / Decipher / failed attempts / Save / Load / Export / Import over stores with overlapping keepers",
  NOTEST + "key reuse only shows over a sequence of operations and through the marking done on every path, including failure paths and multi-key messages.",
  ["cipher.go", "messages.go", "persistence.go"],
  [("marking keys used", "cipher.go EnrichWithKey, Encipher, Decipher"), ("skipping used keys", "cipher.go FindKey"), ("persisting the used mark", "persistence.go Save, Load")],
  [("Key.Used", "key has been consumed", "krypto431.go Key")], ["Message.CipherText", "Message.KeyId", "Key.Used"])

p("C04", "Keys are chosen only if unused, uncompromised and held by all recipients",
  "A key chosen automatically, for the start of a message or its continuation, is always the first key in the store that is unused, not compromised, has an id of the configured group size, and is kept by every recipient (or by nobody when there is no recipient); if none exists the message is refused. An explicitly named key starts the message if it exists, is unused, uncompromised and has a full-group id, and otherwise the message is refused; it is never silently replaced.",
  ["inputs", "histories"],
  "all stores with arbitrary used/compromised flags, keeper sets and id lengths x all recipient sets x explicit key ids in any spelling accepted",
  NOTEST + "selection is a predicate over the whole store and the recipient list.",
  ["cipher.go", "functions.go", "messages.go"],
  [("automatic key choice", "cipher.go FindKey"), ("explicit key vetting", "cipher.go EnrichWithKey; messages.go NewTextMessage"), ("recipient/keeper matching", "functions.go AllNeedlesInHaystack")],
  None, ["Krypto431.FindKey", "Message.KeyId", "key ids embedded in the coded text"])

p("C05", "Receiving never crashes, and consumes keys only when it succeeds",
  "Deciphering any received text whatever, with any key store, either succeeds or returns an error and never crashes; the keys a message names are all marked used if it succeeds and no key changes in any way if it fails. Trying to recognise a message's text as ciphertext leaves the text, ciphertext and key id of the message as they were when it fails, and a dry run changes nothing at all and answers yes exactly when the text is only letters, blanks and equal signs, is at least two groups long and begins with the id of a key in the store.",
  ["inputs"],
  "all texts and ciphertexts (random, truncated, mutated, naming missing or short keys, invalid control sequences) x key stores",
  NOTEST + "needs adversarial ciphertexts that fail after one or several keys were already consulted.",
  ["cipher.go"],
  [("marking deferred until success", "cipher.go Decipher"), ("restore on failure", "cipher.go TryDecipherPlainText"), ("bounds checks", "cipher.go Decipher, decodeCharacter")],
  None, ["Message.Decipher", "Message.TryDecipherPlainText"])

p("C06", "Messages interoperate with pen and paper using only the printed key sheet",
  "Ciphertext made by the program can be deciphered by hand using nothing but the printed key sheets (key groups, reciprocal table and coding legend), and the program deciphers any ciphertext made by hand by the same rules, including superfluous table or case switches, key changes earlier than necessary and filling up the last group with Z.",
  ["inputs"],
  "all supported texts x all legal hand encodings x key sheets printed for any key geometry",
  NOTEST + "agreement with an independent implementation of the paper procedure has to hold for every text and every legal way of coding it.",
  ["cipher.go", "print.go", "diana/reciprocal-table.txt", "diana/diana.go", "README.md"],
  [("coding tables", "cipher.go CharacterTables"), ("legend and table on the sheet", "print.go KeyFooter, Key.String; diana/reciprocal-table.txt")],
  None, ["Key.String", "Message.Encipher", "Message.Decipher"])

p("C07", "The trigraph cipher is the exact reciprocal DIANA table",
  "For all letters, the third letter of a trigraph is (25 - row - column) mod 26, so that it is symmetric, self-reciprocal, and a bijection for each key letter, identically in the byte, rune, zero-key and printed-table forms. Anything outside A to Z, a missing operand or a key position outside the key is refused with an error that leaves output and key position untouched, and each appended letter advances the key position by exactly one.",
  ["inputs"],
  "all pairs of 26x26 letters (exhaustive), all 256x256 byte pairs, generated rune pairs and key streams",
  "The existing tests sample a few rows of the table and one key; reciprocity, symmetry and rejection must hold for every operand.",
  ["diana/diana.go", "diana/reciprocal-table.txt"],
  [("trigraph formula", "diana/diana.go TrigraphByte, TrigraphRune"), ("range checks", "diana/diana.go"), ("key index handling", "diana/diana.go AppendTrigraphByteByKey")],
  None, ["diana package functions", "diana.ReciprocalTable"])

p("C08", "Generating keys adds exactly the requested well-formed, distinct keys",
  "Generating n keys appends exactly n keys and leaves the existing ones untouched; each new key has an id of exactly one group of letters A-Z that no other key in the store has, key letters A-Z to the configured length rounded up to whole groups, is unused and uncompromised, is dated now, and expires at the given date-time group (or a year from now). Its keepers are the given call-signs upper-cased and split on commas and blanks, without the station's own, and an invalid expiry date generates nothing.",
  ["inputs", "histories"],
  "all n, key lengths, group sizes (with id spaces so small that collisions are frequent), keeper lists, expiry groups and pre-existing stores",
  "TestGenerateKeys samples one configuration and checks lengths and alphabet only; id uniqueness, keepers, expiry and preservation of the store are never checked.",
  ["keys.go", "functions.go"],
  [("key construction and id retry loop", "keys.go NewKey"), ("expiry parsing", "keys.go GenerateKeys"), ("keeper vetting", "functions.go VettedKeepers; keys.go RemoveKeeper")],
  None, ["Krypto431.Keys"])

p("C09", "All random material comes uniformly from the system's secure random source",
  "Key letters, key ids, message ids, salts and storage keys are drawn uniformly and independently, with full entropy, from the operating system's secure random source, every draw consuming fresh output, also when many goroutines draw at once. They are fully determined by that source (no other seed, clock or counter), and when the source fails nothing is generated.",
  ["inputs", "schedules"],
  "all entropy streams (including degenerate and failing ones), all ranges n, all interleavings of concurrent callers",
  "The existing crand tests are statistical samples of the generator functions (and excluded as flaky); none observes keys, ids, salts, the dependence on the source or failure.",
  ["crand/crand.go", "keys.go", "functions.go", "persistence.go"],
  [("crypto/rand backed math/rand source", "crand/crand.go cryptoRandSource"), ("letters and ids", "keys.go NewKey; functions.go RandomAlnumRunes"), ("salt and storage key", "persistence.go GenerateSalt, GeneratePFK")],
  None, ["crypto/rand.Reader as seen by the library", "generated keys, ids, salts"])

p("C10", "Save then load reproduces keys, messages and settings exactly",
  "Loading a saved store yields exactly the keys, messages, call-sign and settings that were saved, in the same order and with every persisted attribute (ids, letters, keepers, dates with their zone, used and compromised marks, comments, recipients, texts, key ids), whether loaded into a fresh instance or into one that already holds other or older data. Everything loaded is immediately usable: loaded messages decipher and loaded keys encipher and print with the loaded instance.",
  ["inputs", "histories"],
  "all store contents (empty to many entries, arbitrary Unicode text and binary, any date/zone) x all target instance states x repeated save/load cycles",
  NOTEST + "loss or bleed-through of a field depends on the content (zero values, reused slices) and on what the loading instance already held.",
  ["persistence.go", "krypto431.go"],
  [("encode/encrypt/compress", "persistence.go Save"), ("decode and re-attach instance", "persistence.go Load")],
  [("Krypto431 exported fields", "what is persisted", "krypto431.go")], ["Krypto431.Save", "Krypto431.Load"])

p("C11", "A store opens only with its own key and only unmodified",
  "A saved store can be opened only with the exact storage key it was saved with, reveals none of its content in the file, and never looks the same twice even when identical content is saved again. If the file is truncated, altered, or has parts reordered, repeated, removed or replaced by parts of another store saved with the same key, loading returns an error, never crashes, and leaves the loading instance's data untouched, unless what it loads is exactly what was saved.",
  ["inputs", "fault_sequences"],
  "all stores x all single and multi-byte mutations, truncation points, record splices and wrong keys (including one-bit-different ones)",
  NOTEST + "needs every position of the file and structural splices at encrypted-record boundaries.",
  ["persistence.go"],
  [("XSalsa20-Poly1305 stream with random nonces", "persistence.go Save, Load"), ("checksum of the compressed stream", "persistence.go Load")],
  None, ["the file on disk", "Krypto431.Load"])

p("C12", "A failed or interrupted save never destroys the stored data",
  "At whatever point a save fails or the process dies while saving (no space left, write error, killed), the store path afterwards holds either the complete previous store or the complete new one, and saving reports success only if the new content is completely on disk. Saving never replaces a file the instance has not loaded unless overwriting was explicitly enabled, and saving without a usable storage key fails without touching the file.",
  ["crash_points", "fault_sequences"],
  "all byte positions at which writing can stop (failing write or killed process) x store sizes x new or existing target (plain file or symbolic link)",
  NOTEST + "requires injecting write faults and crashes at every point of the save.",
  ["persistence.go"],
  [("refusal to overwrite", "persistence.go Save"), ("writing the encrypted file", "persistence.go Save")],
  None, ["the store file after a faulted save", "return value of Save", "exit status of the CLI"])

p("C13", "Files with keys or messages are created readable by their owner only",
  "Every file the library or the command-line tool creates that holds keys or messages (store, exported store, key or message listing as text or PDF) is created with permissions giving access to its owner only, regardless of the umask, of the file's name and of what it contains.",
  ["configurations", "inputs"],
  "all output kinds x umasks x contents x library and CLI entry points",
  NOTEST + "the mode must hold for each output path and umask.",
  ["persistence.go", "print.go"],
  [("0600 on creation", "persistence.go Save; print.go KeysTextFile, MessagesTextFile, KeysPDF, MessagesPDF")],
  None, ["file mode on disk"])

p("C14", "Storage keys derive from the password by PBKDF2 and bad input is refused",
  "A storage key derived from a password is PBKDF2-HMAC-SHA256 of password and the instance's salt with 310000 iterations and 32 bytes, and the password buffer is wiped afterwards whether or not derivation succeeded; the validating variant refuses passwords below the configured entropy. Hex-encoded storage keys are accepted only as exactly 32 bytes and hex-encoded salts only as at least 32 bytes, and a refused value leaves the key and salt that were in force unchanged.",
  ["inputs"],
  "all passwords (any bytes), salts, hex strings valid and malformed, entropy limits",
  NOTEST + "a weaker derivation or a swallowed salt is invisible to any test that only saves and loads with the same program.",
  ["persistence.go", "krypto431.go"],
  [("derivation", "persistence.go DerivePFKFromPassword, DerivePFKFromPasswordWithValidation"), ("hex setters and options", "persistence.go SetSaltFromString, SetPFKFromString; krypto431.go WithPFK, WithSalt and string forms")],
  None, ["GetPFK, GetSalt and their string forms", "the password buffer"])

p("C15", "Radiograms in the documented formats parse into exactly their parts",
  "A radiogram in any of the documented formats (shortest, short with or without instructions and group count, with action addressees, with action addressees and instructions) yields exactly its addressees, sender, date-time group (now if absent) and text, independent of letter case of header, line breaks, extra blanks and whichever of the usual endings closes it. Any other input is either parsed or refused with an error, and never crashes.",
  ["inputs"],
  "all combinations of the documented header forms, call-sign lists, date-time groups, texts and endings; arbitrary strings for robustness",
  NOTEST + "four overlapping patterns are tried in turn; misparses appear only for particular combinations of header, text and ending.",
  ["messages.go", "MESSAGE_FORMAT.md"],
  [("format patterns tried in order", "messages.go ParseRadiogram and the MessageRegexp patterns"), ("trailer removal", "messages.go MessageTrailRegexp")],
  None, ["Krypto431.ParseRadiogram"])

p("C16", "Printed traffic entered at the receiver yields the sender's message",
  "The traffic text the program prints for an outgoing message, entered at a receiving station that holds the keys, yields the same plaintext, addressees, sender, date-time group, key id and ciphertext as at the sender, however the text is re-wrapped, and with the group count it states equal to the number of groups sent. A message is enciphered if it is from the station's own call-sign and deciphered if from another; one that cannot be deciphered is kept with its text as received.",
  ["inputs", "configurations"],
  "all plaintexts free of radiogram separators, recipients, stations and key geometries, re-wrapped at any width",
  NOTEST + "crosses parsing, enciphering, printing, wrapping and parsing again at another station.",
  ["messages.go", "print.go", "cipher.go"],
  [("outgoing/incoming split", "messages.go NewTextMessage, IsMyCall"), ("traffic example", "print.go Message.String"), ("recognising ciphertext", "cipher.go TryDecipherPlainText")],
  None, ["Message.String", "Krypto431.NewTextMessage"])

p("C17", "Exporting yields an independent copy of exactly the selected keys",
  "An export holds exactly the keys the filter selects, in order and complete, with the station's call-sign and settings and no messages, and saved to its own file it loads as such with the station's storage key. The export is independent: wiping, changing or deleting in either the export or the original never alters the other, and exporting never changes the original store.",
  ["inputs", "histories"],
  "all stores and filters x all operations performed on either side afterwards",
  NOTEST + "sharing between copy and original only shows when one side is modified or wiped later.",
  ["persistence.go"],
  [("copying selected keys", "persistence.go ExportKeys")], None, ["Krypto431.ExportKeys"])

p("C18", "Importing adds exactly the selected keys and never damages existing ones",
  "Importing adds to the store an exact independent copy of every key in the other file that the filter selects and whose id has the store's group size, with the importing station removed from its keepers and the exporting station added, and returns how many were added. A key whose id already exists is left alone unless overwriting is enabled, in which case it is replaced and ids stay unique; all other keys, the messages, the storage key and the salt of the importing station stay untouched, also when the file cannot be loaded.",
  ["inputs", "histories"],
  "all pairs of stores with overlapping ids, keepers and group sizes x filters x overwrite setting x wrong keys and damaged files",
  NOTEST + "depends on the combination of two stores and on later operations touching imported keys.",
  ["persistence.go", "keys.go"],
  [("copy, keeper exchange, duplicate handling", "persistence.go ImportKeys"), ("keeper set operations", "keys.go AddKeeper, RemoveKeeper")], None, ["Krypto431.ImportKeys", "Krypto431.Keys"])

p("C19", "Deleting removes exactly the named keys or messages, and ids stay unique",
  "Deleting keys (ids in any letter case) or messages (ids case-sensitive), singly or as comma or blank separated lists or by their listing lines, removes exactly those named, reports how many there were, and leaves every other entry complete and unchanged. Looking up a key or message id finds it if and only if it is in the store, and newly created messages always get four-character alphanumeric ids no other message in the store has.",
  ["histories", "inputs"],
  "all sequences of creation, deletion and lookup, including duplicates, unknown ids, last/first/only entries",
  NOTEST + "swap-and-truncate deletion with wiping goes wrong only for particular positions and histories.",
  ["keys.go", "messages.go", "cipher.go", "functions.go"],
  [("delete by swap with last", "keys.go DeleteKey; messages.go DeleteMessage"), ("lookup", "cipher.go GetKey; keys.go ContainsKeyId; messages.go ContainsMessageId"), ("unique message ids", "messages.go NewUniqueMessageId")], None, ["Krypto431.Keys", "Krypto431.Messages"])

p("C20", "Wiping erases secrets from memory and touches nothing else",
  "After a key, a message or a whole instance is wiped (by wiping, closing, deleting it, or a message being refused), the memory that held its key letters, key id, keepers and comment, or its plaintext, ciphertext, radiogram, key id and binary content, or the storage key and salt, no longer contains them, in both the random and the zeroing variants. Wiping one item never alters any other key or message, and using a wiped instance gives errors rather than crashes.",
  ["inputs", "histories"],
  "all items and all sizes x all wiping entry points x sharing between messages and keys",
  NOTEST + "only observable by holding on to the underlying memory, for every field and entry point.",
  ["krypto431.go", "keys.go", "messages.go"],
  [("wipe functions", "krypto431.go Wipe, RandomWipe, ZeroWipe and the Key, Message, Krypto431 methods")], None, ["backing arrays of slices held by the caller"])

p("C21", "Printed sheets and listings show every selected item completely and nothing else",
  "Text output, text files and PDF files contain, for exactly the keys or messages selected and in store order, everything needed to use them: for a key its id, all key letters in groups, keepers, dates, used mark, table and legend; for a message its id, date-time group, addressees, sender, full text and all ciphertext groups. Listings have exactly one line per selected item, under the header, with its id, call-signs, dates, marks and comment. Writing a file succeeds only if it is written completely.",
  ["inputs", "configurations"],
  "all stores, filters, key geometries, column settings and page fill levels (none, one, exactly full, overflowing pages)",
  NOTEST + "omissions occur at page breaks, very long keys or keeper lists and unusual widths.",
  ["print.go", "keys.go", "messages.go", "functions.go"],
  [("sheets and pages", "print.go Key.String, Message.String, KeysPDF, MessagesPDF, KeysAsText, MessagesAsText"), ("listings", "keys.go SummaryOfKeys; messages.go SummaryOfMessages; functions.go column sizes")], None, ["returned text", "file contents", "PDF page contents"])

p("C22", "The command-line tool changes and lists stores exactly as its options say",
  "For any sequence of commands the store on disk afterwards holds exactly what the commands ask for: initialise (settings, call-sign, keys), generate, delete by id, export, import, send and receive, each command reporting failure by a non-zero exit status and then leaving the store unchanged (but for recording messages deciphered to be shown). Listings, exports, imports and print-outs cover exactly the items that match the given selection: ids, keepers or addressees (all, or any with --or), senders, used, unused, compromised, expired, invalid (expired or compromised), valid for n days and not compromised, or all.",
  ["histories", "inputs", "configurations"],
  "all command sequences and option combinations over small stores, storage key given as hex key or password, custom salts",
  "There are no tests for the command-line tool at all.",
  ["cmd/krypto431/keys.go", "cmd/krypto431/messages.go", "cmd/krypto431/initialize.go", "cmd/krypto431/functions.go"],
  [("selection filters", "cmd/krypto431/keys.go, messages.go filterFunction"), ("store updates", "cmd/krypto431 keys, messages, initialize")], None, ["store files on disk", "standard output", "exit status"])

p("C23", "Ciphertext is released only after the used keys are safely recorded",
  "When the command-line tool accepts an outgoing message, the ciphertext appears on its output only once the store on disk records the message and marks all its keys used; if recording fails or the process dies before that, no ciphertext has been output. A received message's keys are likewise recorded as used by the time its plaintext is shown.",
  ["crash_points", "fault_sequences"],
  "all messages x all points at which writing the store can fail or the process can be killed",
  "There are no tests for the command-line tool; needs write faults at every point of the save.",
  ["cmd/krypto431/messages.go", "persistence.go"],
  [("order of saving and printing", "cmd/krypto431/messages.go")], None, ["standard output versus store file"])

p("C24", "Changing the storage key keeps the content and shuts out the old key",
  "Changing a store's encryption key (to a given hex key, a password with the default or a new salt, or a random key that is printed) leaves its keys, messages and settings unchanged, makes it open with the new key or password and no longer with the old one. If the old key is wrong or the new one invalid, the command fails and the file remains as it was, still opening with the old key.",
  ["inputs", "histories"],
  "all sequences of key changes with valid and invalid old/new keys, passwords and salts",
  "There are no tests for the command-line tool.",
  ["cmd/krypto431/pfk.go", "persistence.go"],
  [("re-encryption", "cmd/krypto431/pfk.go managePFK")], None, ["store file", "exit status"])

p("C25", "Unsafe or unusable settings and call-signs are refused",
  "Checking the settings of an instance accepts exactly those with a file name, group size of at least 1, key length of at least 20, total width of at least 85 and key width not less than the group size. Setting a call-sign trims and upper-cases it and refuses one shorter than two characters without changing the one in force, and initialising a store with refused settings writes no file.",
  ["configurations", "inputs"],
  "all combinations of setting values around and far from their limits; all call-sign strings; library and CLI",
  NOTEST + "limits interact and must hold for all values.",
  ["krypto431.go", "cmd/krypto431/initialize.go"],
  [("settings check", "krypto431.go Assert"), ("call-sign", "krypto431.go SetCallSign")], None, ["Krypto431.Assert", "Krypto431.SetCallSign", "CLI init"])

p("C26", "Grouped output is the exact letters in full groups within the line width",
  "Grouping a key or a ciphertext outputs exactly its letters in order, in groups of the configured size (only the last may be shorter) separated by single blanks or line breaks. In block form no line is longer than the configured width and every line but the last is filled as the layout allows, with no empty lines, no leading or trailing separators, and it never fails for valid settings.",
  ["inputs", "configurations"],
  "all letter counts (including zero and incomplete groups), group sizes and widths",
  NOTEST + "off-by-one errors show at particular remainders and widths.",
  ["functions.go", "keys.go", "messages.go"],
  [("grouping", "functions.go groups; keys.go Groups, GroupsBlock; messages.go Groups, GroupsBlock")], None, ["Groups, GroupsBlock"])

p("C27", "Call-sign lists are normalised and matched as sets",
  "Lists of call-signs or ids given as one or several strings, separated by any mix of commas and blanks, are split into the same upper-case items in order (message ids keep their case). Adding keepers or recipients never duplicates one already present and never shares memory with the caller's list, removing takes out exactly the named ones, and the all-of and any-of matches agree with set inclusion and intersection (case-insensitively where offered; an empty side never matches).",
  ["inputs", "histories"],
  "all lists of call-signs, separators and letter cases; all sequences of add and remove",
  NOTEST + "set semantics must hold for every combination of lists, duplicates and case.",
  ["functions.go", "keys.go", "messages.go"],
  [("vetting", "functions.go VettedKeepers, VettedMessageIds"), ("matching", "functions.go AllNeedlesInHaystack, AnyNeedleInHaystack, AnyOfThem, EqualRunes, EqualRunesFold"), ("set operations", "keys.go AddKeeper, RemoveKeeper, ContainsKeeper; messages.go AddRecipient, RemoveRecipient, ContainsRecipient")], None, ["returned lists and booleans"])

p("C28", "A key's validity is judged by its expiry date",
  "A key counts as expired exactly when its expiry time has passed, and as valid for a period (any duration, one day, thirty days, 365 days) exactly when it expires later than that period from now, in whatever time zone the expiry was given. The expiry shown in listings and on sheets is the same date-time group the key was generated with, and it is unaffected by saving, loading, exporting and importing.",
  ["inputs"],
  "all expiry times relative to now (away from the instant itself), all periods, all whole-hour zones",
  NOTEST + "must hold for every expiry/period/zone combination.",
  ["keys.go", "persistence.go"],
  [("validity predicates", "keys.go IsExpired, IsValid, IsValidOneDay, IsValidOneMonth, IsValidOneYear"), ("expiry parsing", "keys.go GenerateKeys")], None, ["Key validity methods", "printed expiry"])

p("C29", "Passwords, storage keys and key letters are never shown unasked",
  "A password or storage key typed at a prompt, given as an option or in a variable never appears on the terminal, in the tool's output, error messages or help, nor in any file it writes, and neither do key letters but where printing keys is asked for (a new random or derived storage key is printed where that is the command's purpose). A question for a password gives exactly what was typed, once it is as long or strong as demanded and, for a new one, repeated equally. However typing a password ends (accepted, denied, repeated differently, interrupted by the user or a signal) the terminal is left as it was found, and interrupting any question makes the command fail and leaves all files as they were.",
  ["inputs", "histories", "fault_sequences"],
  "all commands of the tool and questions of tool and library x all passwords and storage keys x all points at which it can be interrupted",
  "There are no tests for the command-line tool, and none use a terminal.",
  ["persistence.go", "cmd/krypto431/functions.go", "cmd/krypto431/pfk.go", "cmd/krypto431/initialize.go", "cmd/krypto431/keys.go", "messages.go"],
  [("password prompts", "persistence.go AskForPassword, AskAndConfirmPassword, OldAskAndConfirmPassword"), ("questions", "cmd/krypto431 initialize, keys, messages, managePFK; persistence.go Save, ImportKeys"), ("options and variables", "cmd/krypto431/krypto431.go flags, functions.go setSaltAndPFK")], None, ["terminal screen and settings", "standard and error output", "files", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
