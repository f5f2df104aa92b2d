package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip39/wordlists"
	"github.com/mearaj/bips/util"
	"golang.org/x/text/unicode/norm"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks,
		mc.Check{ID: "C01", Explore: c01, Rule: "per list (10 shipped + 5 custom) and size: every value 0..2047 of every 11-bit group, every single bit, every leading-zero count, boundary patterns; every unsupported byte length 0..300; oracle: bit-list encoder with pinned official lists; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C02", Explore: c02, Rule: "per size and base entropy: every position x all 2048 words (so every wrong checksum word and every single-word corruption), every swap of two positions, every leading-zero count; all lists; oracle: bit-list decoder; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C03", Explore: c03, Rule: "every word count 0..300 and around 2^16, every position x an alphabet of near-word tokens, every last word; the five validating entry points give one verdict; every code point placed before, after and inside a word; a word and a sentence with every one or two characters before, behind and around them, and in groups with foreign separators; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C04", Explore: c04, Rule: "per size: every gap (and both ends) x every Unicode white-space rune and multi-rune separator, uniform separators, long runs; entropy, byte array, seed and hex seed equal those of the single-spaced sentence; every two white-space characters together, white space up to several MiB; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C05", Explore: c05, Rule: "passphrases: every length 0..L, every single byte value < 0x80, non-ASCII NFKD strings; mnemonics of every size and list plus arbitrary password lengths around the hash block size; non-NFKD inputs; oracle: own PBKDF2 over NFKD forms; malformed UTF-8 in mnemonic and passphrase; passphrase and password with things written around them; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process", Assum: []string{"golang.org/x/text/unicode/norm computes NFKD"}},
		mc.Check{ID: "C06", Explore: c06, Rule: "the ten lists against pinned copies; every history of list selections up to the depth bound over 15 lists, three of them also through one reused backing array, with encode/decode/lookup/retrieval compared with the model after every step; pairs of lists of other lengths (none, 1, 2, 2047, 2049 words)", Procs: 0},
		mc.Check{ID: "C07", Explore: c07, Rule: "scripted random source: every failure offset x {error, end of input, error with data} x chunk size x size/word count; all bit sizes and all 256 word counts; every history of three generation calls under working and failing sources; generation after every family of operations", Assum: []string{"crypto/rand.Reader is the only random source; it is replaced by a script"}},
	)
}

var implLists = map[string][]string{"english": wordlists.English, "french": wordlists.French, "spanish": wordlists.Spanish, "italian": wordlists.Italian,
	"japanese": wordlists.Japanese, "korean": wordlists.Korean, "chinese_simplified": wordlists.ChineseSimplified, "chinese_traditional": wordlists.ChineseTraditional,
	"czech": wordlists.Czech, "portuguese": wordlists.Portuguese}

// customs are lists a user might install.
var customs = map[string][]string{
	"custom-reversed": func() []string {
		o := make([]string, 2048)
		for i, w := range ref.Lists["english"] {
			o[2047-i] = w
		}
		return o
	}(),
	"custom-rotated": append(append([]string(nil), ref.Lists["english"][1000:]...), ref.Lists["english"][:1000]...),
	"custom-numbers": func() []string {
		var o []string
		for i := 0; i < 2048; i++ {
			o = append(o, fmt.Sprintf("%d", i))
		}
		return o
	}(),
	// English but for two words in the middle swapped, or one word replaced
	"custom-swapped": func() []string {
		a := append([]string(nil), ref.Lists["english"]...)
		a[1000], a[1001] = a[1001], a[1000]
		return a
	}(),
	"custom-one": func() []string {
		a := append([]string(nil), ref.Lists["english"]...)
		a[1024] = "lamplighter"
		return a
	}(),
}
var customNames = []string{"custom-reversed", "custom-rotated", "custom-numbers", "custom-swapped", "custom-one"}

var refIdx = func() map[string]map[string]int {
	m := map[string]map[string]int{}
	for n, l := range ref.Lists {
		m[n] = ref.IndexOf(l)
	}
	for n, l := range customs {
		m[n] = ref.IndexOf(l)
	}
	return m
}()

// shared is one backing array that takes the words of different lists in turn:
// names "shared-X" mean list X installed from it.
var shared = make([]string, 2048)

func refList(n string) []string {
	n = strings.TrimPrefix(n, "shared-")
	if l, ok := ref.Lists[n]; ok {
		return l
	}
	return customs[n]
}

// use selects the implementation's own list n (or a private copy of a custom one).
func use(n string) {
	if l, ok := implLists[n]; ok {
		bip39.SetWordList(l)
		return
	}
	if x, ok := strings.CutPrefix(n, "shared-"); ok {
		copy(shared, refList(x))
		bip39.SetWordList(shared)
		return
	}
	bip39.SetWordList(append([]string(nil), customs[n]...))
}

var sizes = []int{16, 20, 24, 28, 32}

func encCheck(t *mc.T, ent []byte, list []string) string {
	in := append([]byte(nil), ent...)
	s, err := bip39.NewMnemonic(in)
	t.Step()
	if !bytes.Equal(in, ent) {
		t.Failf("NewMnemonic changed its entropy")
	}
	if !ref.SizeOK(len(ent)) {
		t.Outcome("refused")
		if err == nil || s != "" {
			t.Failf("NewMnemonic of %d bytes: %q, %v", len(ent), s, err)
		}
		if s, err = bip39.NewMnemonic(in); err == nil || s != "" {
			t.Failf("NewMnemonic of %d bytes, asked again: %q, %v", len(ent), s, err)
		}
		return ""
	}
	t.Outcome("encoded")
	w := ref.Sentence(ent, list)
	if err != nil || s != w {
		t.Failf("NewMnemonic(%x) = %q, %v; want %q", ent, s, err, w)
	}
	return s
}

// setGroup returns a copy of ent with bits [11*g, 11*g+11) replaced by v (as
// far as they lie inside the entropy).
func setGroup(ent []byte, g, v int) []byte {
	o := append([]byte(nil), ent...)
	for i := 0; i < 11; i++ {
		p := 11*g + i
		if p >= len(o)*8 {
			break
		}
		bit := byte(v>>uint(10-i)) & 1
		o[p/8] = o[p/8]&^(0x80>>uint(p%8)) | bit<<uint(7-p%8)
	}
	return o
}

func patterns(n int) [][]byte {
	o := [][]byte{make([]byte, n), bytes.Repeat([]byte{0xff}, n), bytes.Repeat([]byte{0x7f}, n), bytes.Repeat([]byte{0x80}, n), bytes.Repeat([]byte{0x01}, n), bytes.Repeat([]byte{0x55}, n), detBytes("pat", n)}
	for i := 0; i < n*8; i++ {
		b := make([]byte, n)
		b[i/8] = 0x80 >> uint(i%8)
		o = append(o, b)
		c := bytes.Repeat([]byte{0xff}, n)
		c[i/8] ^= 0x80 >> uint(i%8)
		o = append(o, c)
	}
	for z := 0; z <= n; z++ {
		for v := 0; v < 4; v++ {
			b := detBytes(fmt.Sprintf("lz%d", v), n)
			for i := 0; i < z; i++ {
				b[i] = 0
			}
			o = append(o, b)
			b = detBytes(fmt.Sprintf("tz%d", v), n)
			for i := n - z; i < n; i++ {
				b[i] = 0
			}
			o = append(o, b)
		}
	}
	return o
}

func c01(c *mc.C) {
	famHistories(c, "encode")
	alikeCases(c, "encode")
	for _, ln := range append(append([]string(nil), ref.ListNames...), customNames...) {
		for _, n := range sizes {
			groups := (n*8 + n/4) / 11
			for g := 0; g < groups; g++ {
				for hi := 0; hi < 2048; hi += 256 {
					ln, n, g, hi := ln, n, g, hi
					c.Case(mc.N("list=%s bytes=%d group=%d values=%d..%d", ln, n, g, hi, hi+255), func(t *mc.T) {
						use(ln)
						base := detBytes("c01", n)
						for v := hi; v < hi+256; v++ {
							e := setGroup(base, g, v)
							encCheck(t, e, refList(ln))
							t.State(e)
						}
					})
				}
			}
			n, ln := n, ln
			for i, p := range patterns(n) {
				i, p := i, p
				c.Case(mc.N("list=%s bytes=%d pattern=%d", ln, n, i), func(t *mc.T) {
					use(ln)
					encCheck(t, p, refList(ln))
					t.State(p, ln)
				})
			}
			if ln == "english" || c.Thorough {
				dense := entDense(n)
				for i := 0; i < len(dense); i += 64 {
					i := i
					c.Case(mc.N("list=%s bytes=%d dense %d..", ln, n, i), func(t *mc.T) {
						use(ln)
						for _, p := range dense[i:min(i+64, len(dense))] {
							encCheck(t, p, refList(ln))
							t.State(p, ln)
						}
					})
				}
			}
		}
	}
	for n := 0; n <= 300; n++ {
		n := n
		c.Case(mc.N("length %d", n), func(t *mc.T) {
			use("english")
			for k := 0; k < 5; k++ {
				encCheck(t, fill(k, n), refList("english"))
			}
			t.State(n)
		})
	}
	for _, n := range []int{1 << 16, 1<<16 + 16, 1 << 20, 256 + 16, 256 + 32, 512 + 16, 4096 + 16, 1<<29 + 16} {
		n := n
		c.Case(mc.N("length %d", n), func(t *mc.T) {
			if n > 1<<24 && !c.Thorough {
				return
			}
			s, err := bip39.NewMnemonic(make([]byte, n))
			if err == nil || s != "" {
				t.Failf("NewMnemonic of %d bytes accepted", n)
			}
			t.State(n)
		})
	}
	c.Case(mc.N("nil entropy"), func(t *mc.T) {
		s, err := bip39.NewMnemonic(nil)
		if err == nil || s != "" {
			t.Failf("nil accepted")
		}
	})
	if c.Thorough { // two groups at once: neighbours
		for _, n := range sizes {
			groups := n * 8 / 11
			for g := 0; g+1 < groups; g++ {
				for v := 0; v < 2048; v += 64 {
					n, g, v := n, g, v
					c.Case(mc.N("bytes=%d groups %d,%d = %d,*", n, g, g+1, v), func(t *mc.T) {
						use("english")
						for w := 0; w < 2048; w++ {
							e := setGroup(setGroup(detBytes("c01b", n), g, v), g+1, w)
							encCheck(t, e, refList("english"))
							t.State(e)
						}
					})
				}
			}
		}
	}
}

// decCheck decodes one sentence through entropy and byte-array forms.
func decCheck(t *mc.T, s string, idx map[string]int) ([]byte, error) {
	w, werr := ref.DecodeString(s, idx)
	var g, full, raw []byte
	var err, err2, err3 error
	t.Try(fmt.Sprintf("decoding %q", s), func() {
		g, err = bip39.EntropyFromMnemonic(s)
		full, err2 = bip39.MnemonicToByteArray(s)
		raw, err3 = bip39.MnemonicToByteArray(s, true)
		if full2, err4 := bip39.MnemonicToByteArray(s, false); !bytes.Equal(full2, full) || (err4 == nil) != (err2 == nil) {
			t.Failf("%q: byte array %x %v, and %x %v when the raw form is declined", s, full, err2, full2, err4)
		}
	})
	t.Step()
	if werr != nil {
		t.Outcome("refused")
		if err == nil || err2 == nil || err3 == nil || len(g)+len(full)+len(raw) != 0 {
			t.Failf("%q: model refuses (%v) but got %x %v / %x %v / %x %v", s, werr, g, err, full, err2, raw, err3)
		}
		if g, err = bip39.EntropyFromMnemonic(s); err == nil || len(g) != 0 {
			t.Failf("%q: refused at first, then decoded to %x", s, g)
		}
		return nil, werr
	}
	t.Outcome("accepted")
	if err != nil || err2 != nil || err3 != nil {
		t.Failf("%q: refused: %v / %v / %v", s, err, err2, err3)
	}
	if !bytes.Equal(g, w) {
		t.Failf("%q decodes to %x, want %x", s, g, w)
	}
	if !bytes.Equal(raw, w) {
		t.Failf("%q: raw form %x, want %x", s, raw, w)
	}
	if f := ref.FullBytes(w); !bytes.Equal(full, f) {
		t.Failf("%q: byte array %x, want %x", s, full, f)
	}
	return g, nil
}

func c02(c *mc.C) {
	famHistories(c, "decode", "bytes", "encode")
	alikeCases(c, "decode")
	lists := append(append([]string(nil), ref.ListNames...), customNames...)
	for li, ln := range lists {
		bases := 1
		if li == 0 {
			bases = 3
		}
		if c.Thorough {
			bases = 8
		}
		for _, n := range sizes {
			words := (n*8 + n/4) / 11
			for b := 0; b < bases; b++ {
				ent := detBytes(fmt.Sprintf("c02-%d-%s", b, ln), n)
				if b == 1 {
					ent = make([]byte, n)
				}
				if b == 2 {
					ent = bytes.Repeat([]byte{0xff}, n)
				}
				ln, n := ln, n
				ws := strings.Fields(ref.Sentence(ent, refList(ln)))
				for p := 0; p < words; p++ {
					for lo := 0; lo < 2048; lo += 512 {
						p, b, lo, ws := p, b, lo, ws
						c.Case(mc.N("list=%s words=%d base=%d position=%d word=%d..%d", ln, words, b, p, lo, lo+511), func(t *mc.T) {
							use(ln)
							l := refList(ln)
							m := append([]string(nil), ws...)
							for v := lo; v < lo+512; v++ {
								m[p] = l[v]
								s := strings.Join(m, " ")
								e, err := decCheck(t, s, refIdx[ln])
								if err == nil {
									back, err := bip39.NewMnemonic(e)
									if err != nil || back != s {
										t.Failf("%q decodes to %x, which encodes to %q, %v", s, e, back, err)
									}
								}
								t.State(ln, n, b, p, v)
							}
						})
					}
				}
				if b == 0 {
					ws := ws
					c.Case(mc.N("list=%s words=%d all swaps and rotations", ln, words), func(t *mc.T) {
						use(ln)
						for i := 0; i < words; i++ {
							for j := i + 1; j < words; j++ {
								m := append([]string(nil), ws...)
								m[i], m[j] = m[j], m[i]
								decCheck(t, strings.Join(m, " "), refIdx[ln])
								t.State(ln, words, i, j)
							}
							decCheck(t, strings.Join(append(append([]string(nil), ws[i:]...), ws[:i]...), " "), refIdx[ln])
						}
					})
				}
			}
			ln, n := ln, n
			there := func(t *mc.T, p []byte) {
				s := ref.Sentence(p, refList(ln))
				e, err := decCheck(t, s, refIdx[ln])
				if err != nil || !bytes.Equal(e, p) {
					t.Failf("%x does not come back: %x, %v", p, e, err)
				}
				if back, err := bip39.NewMnemonic(e); err != nil || back != s {
					t.Failf("decoded entropy %x encodes to %q, %v; want %q", e, back, err, s)
				}
				t.State(p, ln)
			}
			for i, p := range patterns(n) {
				i, p := i, p
				c.Case(mc.N("list=%s bytes=%d pattern=%d", ln, n, i), func(t *mc.T) {
					use(ln)
					there(t, p)
				})
			}
			if ln == "english" || c.Thorough {
				dense := entDense(n)
				for i := 0; i < len(dense); i += 64 {
					i := i
					c.Case(mc.N("list=%s bytes=%d dense %d..", ln, n, i), func(t *mc.T) {
						use(ln)
						for _, p := range dense[i:min(i+64, len(dense))] {
							there(t, p)
						}
					})
				}
			}
		}
	}
}

// verdicts runs the five validating entry points and demands one verdict.
func verdicts(t *mc.T, s string, want bool) {
	short := s
	if len(short) > 300 {
		short = short[:300] + "..."
	}
	var v [6]bool
	t.Try(fmt.Sprintf("validating %q", short), func() {
		v[0] = bip39.IsMnemonicValid(s)
		e, err := bip39.EntropyFromMnemonic(s)
		v[1] = err == nil
		if err != nil && len(e) != 0 {
			t.Failf("entropy %x beside an error for %q", e, short)
		}
		e, err = bip39.MnemonicToByteArray(s)
		v[2] = err == nil
		if err != nil && len(e) != 0 {
			t.Failf("byte array %x beside an error for %q", e, short)
		}
		e, err = bip39.MnemonicToByteArray(s, true)
		v[3] = err == nil
		if err != nil && len(e) != 0 {
			t.Failf("raw byte array %x beside an error for %q", e, short)
		}
		e, err = bip39.NewSeedWithErrorChecking(s, "p")
		v[4] = err == nil
		if err != nil && len(e) != 0 {
			t.Failf("seed %x beside an error for %q", e, short)
		}
		h, err := util.DeriveSeedFromMnemonic(s, "p")
		v[5] = err == nil
		if err != nil && h != "" {
			t.Failf("hex seed %s beside an error for %q", h, short)
		}
		if v[4] && v[5] && hx(e) != h {
			t.Failf("checked seed %x and hex seed %s differ for %q", e, h, short)
		}
	})
	t.Step()
	for i, x := range v {
		if x != want {
			t.Failf("%q: entry point %d says %v, model %v (all: %v)", short, i, x, want, v)
		}
	}
	t.Outcome(fmt.Sprint(want))
}

func c03(c *mc.C) {
	famHistories(c, "valid", "decode", "bytes", "hexseed")
	alikeCases(c, "decode")
	eng := refList("english")
	good := map[int]string{}
	for _, n := range sizes {
		good[n] = ref.Sentence(detBytes("c03", n), eng)
	}
	counts := []int{}
	for n := 0; n <= 300; n++ {
		counts = append(counts, n)
	}
	counts = append(counts, 256+12, 512+12, 65536, 65536+12, 65536+24, 1<<20+12)
	for _, n := range counts {
		n := n
		c.Case(mc.N("%d words", n), func(t *mc.T) {
			use("english")
			for _, w := range [][]string{{"abandon"}, {"zoo"}, strings.Fields(good[32]), {"abandon", "about"}} {
				m := make([]string, n)
				for i := range m {
					m[i] = w[i%len(w)]
				}
				s := strings.Join(m, " ")
				_, err := ref.DecodeString(s, refIdx["english"])
				if n > 100 && err == nil {
					t.Failf("model accepts %d words", n)
				}
				verdicts(t, s, err == nil)
			}
			// a valid sentence with words cut or added at either end
			for _, k := range sizes {
				ws := strings.Fields(good[k])
				if n < len(ws) {
					for _, s := range []string{strings.Join(ws[:n], " "), strings.Join(ws[len(ws)-n:], " ")} {
						_, err := ref.DecodeString(s, refIdx["english"])
						verdicts(t, s, err == nil)
					}
				} else if n < 30 {
					for _, pad := range []string{"abandon", "zoo", ws[0]} {
						s := good[k] + strings.Repeat(" "+pad, n-len(ws))
						_, err := ref.DecodeString(s, refIdx["english"])
						verdicts(t, s, err == nil)
						s = strings.Repeat(pad+" ", n-len(ws)) + good[k]
						_, err = ref.DecodeString(s, refIdx["english"])
						verdicts(t, s, err == nil)
					}
				}
			}
			t.State(n)
		})
	}
	tokens := func(w string) []string {
		r := []rune(w)
		o := []string{strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "s", w + ".", w + ",", "-" + w, "\"" + w + "\"", w + "\x00", "\u200b" + w, "\ufeff" + w, w + w, string(r[:len(r)-1]), string(r[1:]), "0", "2047", "1", "-1", "unknownword", "é", "\xff", w + "\xff", strings.ToUpper(w[:len(w)-1]) + w[len(w)-1:],
			"ａ" + w[1:], "\u0430" + w[1:], "`" + w + "`", "%s", "%!v", "abandonabandon", strings.Repeat(w, 1000)}
		if len(r) > 4 {
			o = append(o, string(r[:4]))
		}
		// composed/decomposed twins
		if n := norm.NFC.String(w); n != w {
			o = append(o, n)
		}
		return o
	}
	for _, ln := range ref.ListNames {
		for _, n := range sizes {
			if ln != "english" && n != 16 && n != 32 && !c.Thorough {
				continue
			}
			ln, n := ln, n
			s := ref.Sentence(detBytes("c03t", n), refList(ln))
			ws := strings.Fields(s)
			c.Case(mc.N("list=%s bytes=%d untouched", ln, n), func(t *mc.T) { use(ln); verdicts(t, s, true); t.State(s) })
			for p := range ws {
				p := p
				c.Case(mc.N("list=%s bytes=%d bad tokens at %d", ln, n, p), func(t *mc.T) {
					use(ln)
					toks := tokens(ws[p])
					for _, o := range ref.ListNames {
						toks = append(toks, refList(o)[(p*37+n)%2048], refList(o)[0], refList(o)[2047])
					}
					for _, tok := range toks {
						m := append([]string(nil), ws...)
						m[p] = tok
						ms := strings.Join(m, " ")
						_, err := ref.DecodeString(ms, refIdx[ln])
						verdicts(t, ms, err == nil)
						t.State(ms)
					}
				})
			}
			c.Case(mc.N("list=%s bytes=%d last words", ln, n), func(t *mc.T) {
				use(ln)
				m := append([]string(nil), ws...)
				step := 1
				if n != 16 && n != 32 || !c.Thorough {
					step = 16
				}
				for v := 0; v < 2048; v += step {
					m[len(m)-1] = refList(ln)[v]
					ms := strings.Join(m, " ")
					_, err := ref.DecodeString(ms, refIdx[ln])
					verdicts(t, ms, err == nil)
					t.State(ms)
				}
			})
		}
	}
	// a word and a whole sentence with other things around them
	for i, n := range sizes {
		ws := strings.Fields(good[n])
		p := []int{0, 5, len(ws) - 1, 9, 20}[i]
		if p >= len(ws) {
			p = 3
		}
		deco := func(t *mc.T, s string) {
			use("english")
			_, err := ref.DecodeString(s, refIdx["english"])
			verdicts(t, s, err == nil)
		}
		if c.Thorough || i < 3 {
			around(c, fmt.Sprintf("word %d of %d", p+1, len(ws)), ws[p], aroundToks, func(t *mc.T, s string) {
				m := append([]string(nil), ws...)
				m[p] = s
				deco(t, strings.Join(m, " "))
			})
		}
		if c.Thorough || i == 0 || i == 4 {
			around(c, fmt.Sprintf("sentence of %d words", len(ws)), good[n], aroundToks, deco)
			grouped(c, fmt.Sprintf("sentence of %d words", len(ws)), good[n], " ", deco)
		}
	}
	// every code point that is no white space, before, inside and behind a word, and in between words
	const span = 256
	for lo := rune(0); lo < 0x110000; lo += span {
		lo := lo
		c.Case(mc.N("code points %06x..%06x in a sentence", lo, lo+span-1), func(t *mc.T) {
			use("english")
			ws := strings.Fields(good[sizes[lo/span%5]])
			p := int(lo/span) % len(ws)
			try := func(tok string) {
				m := append([]string(nil), ws...)
				m[p] = tok
				ms := strings.Join(m, " ")
				if bip39.IsMnemonicValid(ms) {
					_, err := ref.DecodeString(ms, refIdx["english"])
					verdicts(t, ms, err == nil)
				}
				t.Step()
				t.State(ms)
			}
			for r := lo; r < lo+span && !t.Expired(); r++ {
				if r >= 0xd800 && r < 0xe000 || unicode.IsSpace(r) {
					continue
				}
				w := ws[p]
				try(w + string(r))
				if r > 0x7f || r == 0 || !unicode.IsLetter(r) {
					try(string(r) + w)
					try(w[:2] + string(r) + w[2:])
					try(w + " " + string(r))
				}
				if lo < 0x10000 || c.Thorough {
					try(string(r) + w + string(r))
					try(string(r) + w[1:])
					try(w[:len(w)-1] + string(r))
				}
			}
			verdicts(t, good[16], true)
		})
	}
	for _, s := range []string{"", " ", "\n", strings.Repeat(" ", 1000), "\x00", "\xff\xfe", strings.Repeat("a", 100000)} {
		s := s
		c.Case(mc.N("odd input %d bytes %.5q", len(s), s), func(t *mc.T) { use("english"); verdicts(t, s, false); t.State(s) })
	}
	// the same sentence under another active list, and a valid one judged after an invalid one
	for _, a := range ref.ListNames {
		for _, b := range ref.ListNames {
			a, b := a, b
			c.Case(mc.N("sentence of %s under %s", a, b), func(t *mc.T) {
				s := ref.Sentence(detBytes("c03x", 16), refList(a))
				use(b)
				_, err := ref.DecodeString(s, refIdx[b])
				verdicts(t, s, err == nil)
				verdicts(t, ref.Sentence(detBytes("c03x", 16), refList(b)), true)
				verdicts(t, s, err == nil)
				t.State(a, b)
			})
		}
	}
}

var spaces = []string{"\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000",
	"  ", "   ", "\r\n", " \t ", "\u3000 ", " \u00a0", "\n\n"}

func c04(c *mc.C) {
	famHistories(c, "decode", "bytes", "hexseed", "stretch")
	for _, ln := range []string{"english", "japanese", "korean", "spanish", "french", "chinese_simplified"} {
		for _, n := range sizes {
			if ln != "english" && n != 16 && !c.Thorough {
				continue
			}
			ent := detBytes("c04", n)
			ws := strings.Fields(ref.Sentence(ent, refList(ln)))
			wantSeed := sync.OnceValue(func() []byte {
				return ref.PBKDF2([]byte(strings.Join(ws, " ")), []byte("mnemonicpw"), 2048)
			})
			same := func(t *mc.T, s string, seeds bool) {
				use(ln)
				decCheck(t, s, refIdx[ln])
				if !bip39.IsMnemonicValid(s) {
					t.Failf("%q is not valid", s)
				}
				if !seeds {
					return
				}
				want := wantSeed()
				g, err := bip39.NewSeedWithErrorChecking(s, "pw")
				if err != nil || !bytes.Equal(g, want) {
					t.Failf("checked seed of %q: %x, %v; want %x", s, g, err, want)
				}
				h, err := util.DeriveSeedFromMnemonic(s, "pw")
				if err != nil || h != hx(want) {
					t.Failf("hex seed of %q: %s, %v; want %x", s, h, err, want)
				}
				t.Step()
			}
			ln, n := ln, n
			for si, sp := range spaces {
				si, sp := si, sp
				c.Case(mc.N("list=%s bytes=%d space#%d everywhere", ln, n, si), func(t *mc.T) {
					same(t, strings.Join(ws, sp), true)
					same(t, sp+strings.Join(ws, " "), true)
					same(t, strings.Join(ws, " ")+sp, true)
					same(t, sp+strings.Join(ws, sp)+sp, true)
					t.State(ln, n, si)
				})
				for g := 0; g <= len(ws); g++ {
					g := g
					c.Case(mc.N("list=%s bytes=%d space#%d in gap %d", ln, n, si, g), func(t *mc.T) {
						var s string
						for i, w := range ws {
							switch {
							case i == 0 && g == 0:
								s = sp
							case i == 0:
							case i == g:
								s += sp
							default:
								s += " "
							}
							s += w
						}
						if g == len(ws) {
							s += sp
						}
						same(t, s, c.Thorough || (si+g)%3 == 0)
						if ln == "english" {
							for sj, sp2 := range spaces { // with a second unusual separator
								if sj%4 == g%4 {
									same(t, strings.Replace(s, " ", sp2, 1), false)
								}
							}
						}
						t.State(ln, n, si, g)
					})
				}
			}
			for a := 0; a < 24; a++ { // every two white-space characters, everywhere and at the ends
				a := a
				c.Case(mc.N("list=%s bytes=%d space#%d and another", ln, n, a), func(t *mc.T) {
					for b := 0; b < 24; b++ {
						x, y := spaces[a], spaces[b]
						seeds := (a+b)%4 == 0 || c.Thorough
						same(t, strings.Join(ws, x+y), seeds)
						same(t, x+y+strings.Join(ws, " "), seeds)
						same(t, strings.Join(ws, " ")+x+y, seeds)
						same(t, x+strings.Join(ws, " ")+y, seeds)
						same(t, strings.Join(ws[:2], x)+y+strings.Join(ws[2:], " "), seeds)
						t.State(ln, n, a, b)
					}
				})
			}
			for _, k := range []int{2, 3, 10, 11, 12, 100, 1000, 20000, 1 << 18} {
				if k > 20000 && (ln != "english" || n%16 != 0) {
					continue
				}
				k := k
				c.Case(mc.N("list=%s bytes=%d runs of %d blanks", ln, n, k), func(t *mc.T) {
					same(t, strings.Join(ws, strings.Repeat(" ", k)), true)
					same(t, strings.Repeat(" ", k)+strings.Join(ws, " ")+strings.Repeat("\n", k), true)
					t.State(ln, n, k)
				})
			}
		}
	}
}

type strCase struct{ name, v string }

func c05(c *mc.C) {
	famHistories(c, "stretch", "hexseed")
	alikeCases(c, "stretch")
	seedCheck := func(t *mc.T, m, p string) {
		want := ref.PBKDF2([]byte(norm.NFKD.String(m)), []byte("mnemonic"+norm.NFKD.String(p)), 2048)
		g := bip39.NewSeed(m, p)
		t.Step()
		if len(g) != 64 {
			t.Failf("seed of %q/%q has %d bytes", m, p, len(g))
		}
		if !bytes.Equal(g, want) {
			if raw := ref.PBKDF2([]byte(m), []byte("mnemonic"+p), 2048); bytes.Equal(g, raw) {
				t.Failf("NOT-NFKD: the seed of %+q/%+q is the stretch of the text as typed, not of its NFKD form", m, p)
			}
			t.Failf("seed of %+q/%+q is %x, want %x", m, p, g, want)
		}
		if _, err := ref.DecodeString(m, refIdx["english"]); err == nil && strings.Join(strings.Fields(m), " ") == m {
			use("english")
			g2, err := bip39.NewSeedWithErrorChecking(m, p)
			if err != nil || !bytes.Equal(g2, want) {
				t.Failf("checked seed of %q/%q is %x, %v", m, p, g2, err)
			}
			h, err := util.DeriveSeedFromMnemonic(m, p)
			if err != nil || h != hx(want) {
				t.Failf("hex seed of %q/%q is %s, %v", m, p, h, err)
			}
		}
		t.State(g)
	}
	m12 := ref.Sentence(detBytes("c05", 16), refList("english"))
	m24 := ref.Sentence(detBytes("c05", 32), refList("english"))
	max := 300
	if c.Thorough {
		max = 1500
	}
	for n := 0; n <= max; n++ {
		n := n
		c.Case(mc.N("passphrase of %d bytes", n), func(t *mc.T) {
			p := strings.Repeat("Ab3 -", n/5+1)[:n]
			seedCheck(t, m12, p)
			seedCheck(t, m24, p)
		})
		c.Case(mc.N("password of %d bytes", n), func(t *mc.T) {
			p := strings.Repeat("word ", n/5+1)[:n]
			seedCheck(t, p, "TREZOR")
			seedCheck(t, p, "")
		})
	}
	around(c, "passphrase", "TREZOR", aroundTight, func(t *mc.T, s string) { seedCheck(t, m12, s) })
	around(c, "empty passphrase", "", aroundTight, func(t *mc.T, s string) { seedCheck(t, m24, s) })
	around(c, "password", m12, aroundTight, func(t *mc.T, s string) { seedCheck(t, s, "pw") })
	for b := 0; b < 128; b++ {
		b := b
		c.Case(mc.N("ASCII character %02x", b), func(t *mc.T) {
			ch := string(rune(b))
			for _, p := range []string{ch, "a" + ch, ch + "a", "a" + ch + "b", " " + ch + " "} {
				seedCheck(t, m12, p)
			}
			seedCheck(t, ch, ch)
		})
	}
	for _, ln := range ref.ListNames {
		for _, n := range sizes {
			for k := 0; k < 3; k++ {
				ln, n, k := ln, n, k
				c.Case(mc.N("list=%s bytes=%d variant=%d", ln, n, k), func(t *mc.T) {
					m := ref.Sentence(detBytes(fmt.Sprintf("c05l%d", k), n), refList(ln))
					use(ln)
					for _, p := range []string{"", "TREZOR", norm.NFKD.String("㍍ガバヴァぱばぐゞちぢ十人十色"), norm.NFKD.String("pâsswörd ñ 한글")} {
						seedCheck(t, m, p)
						want := ref.PBKDF2([]byte(m), []byte("mnemonic"+p), 2048)
						use(ln)
						g, err := bip39.NewSeedWithErrorChecking(m, p)
						h, err2 := util.DeriveSeedFromMnemonic(m, p)
						if err != nil || err2 != nil || !bytes.Equal(g, want) || h != hx(want) {
							t.Failf("checked seeds of %q/%q: %x %v %s %v", m, p, g, err, h, err2)
						}
					}
				})
			}
		}
	}
	mz := ref.Sentence(make([]byte, 16), refList("english"))
	for _, p := range cornerPass {
		p := p
		c.Case(mc.N("seed with corner %s, passphrase %s", p.name, p.v), func(t *mc.T) { seedCheck(t, mz, p.v) })
	}
	// every word everywhere, and every entropy byte
	for v := 0; v < 2048; v += 16 {
		v := v
		c.Case(mc.N("sentences of words %d..%d", v, v+15), func(t *mc.T) {
			for w := v; w < v+16; w++ {
				e := make([]byte, sizes[w%5])
				for g := 0; g < 24; g++ {
					e = setGroup(e, g, w)
				}
				seedCheck(t, ref.Sentence(e, refList("english")), "")
			}
		})
	}
	// every Unicode code point, in passphrases and in mnemonics that are their own NFKD form
	const step = 64
	for lo := rune(0x80); lo < 0x110000; lo += step {
		lo := lo
		c.Case(mc.N("code points %06x..%06x in NFKD form", lo, lo+step-1), func(t *mc.T) {
			var rs []rune
			for r := lo; r < lo+step; r++ {
				if r < 0xd800 || r > 0xdfff {
					rs = append(rs, r)
				}
			}
			s := norm.NFKD.String(string(rs))
			if s == "" {
				return
			}
			if c.Thorough || lo < 0x30000 {
				seedCheck(t, m12, s)
			}
			seedCheck(t, s, s+"a")
		})
	}
	// bytes that are not UTF-8 are stretched as they are
	for b := 0x80; b < 0x100; b++ {
		b := b
		c.Case(mc.N("byte %02x outside UTF-8", b), func(t *mc.T) {
			ch := string([]byte{byte(b)})
			for _, p := range []string{ch, "a" + ch, ch + "a", ch + ch} {
				if !utf8.ValidString(p) {
					seedCheck(t, m12, p)
				}
			}
			seedCheck(t, ch+" a", "x")
		})
	}
	for i, p := range []string{"\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "\xff\xfe", "\xef\xbf\xbd", "\xef\xbf\xbf", "\xef\xbb\xbf", "ab\xffcd", "\xfe\xfea"} {
		i, p := i, p
		c.Case(mc.N("malformed UTF-8 #%d", i), func(t *mc.T) { seedCheck(t, m12, p); seedCheck(t, p, ""); seedCheck(t, p, p) })
	}
	// spacing and case inside passphrases matter
	for i, p := range []string{" ", "  ", "a ", " a", "a  b", "a\tb", "a\n", "A", "a", "mnemonic", "mnemonicmnemonic", "\x00", "a\x00", "a\x00b", "\u0300", norm.NFKD.String("Å"), strings.Repeat("p", 128), strings.Repeat("p", 129)} {
		i, p := i, p
		c.Case(mc.N("passphrase form %d", i), func(t *mc.T) { seedCheck(t, m12, p); seedCheck(t, m24, p) })
	}
	// inputs whose NFKD form differs from what was typed
	for _, s := range nonNFKD {
		s := s
		c.Case(mc.N("NFKD passphrase %s", s.name), func(t *mc.T) { seedCheck(t, m12, s.v) })
		c.Case(mc.N("NFKD mnemonic %s", s.name), func(t *mc.T) { seedCheck(t, s.v, "TREZOR") })
	}
	// neighbouring inputs back to back
	for i, a := range [][2]string{{m12, "x"}, {m12, "y"}, {m24, "x"}, {m12 + "x", ""}, {m12, ""}, {"", m12}, {"", ""}, {"mnemonic", ""}, {"", "mnemonic"}} {
		for j, b := range [][2]string{{m12, "x"}, {m24, "y"}, {m12, "xx"}, {"", ""}, {m12, ""}} {
			i, j, a, b := i, j, a, b
			c.Case(mc.N("back to back %d %d", i, j), func(t *mc.T) {
				seedCheck(t, a[0], a[1])
				seedCheck(t, b[0], b[1])
				seedCheck(t, a[0], a[1])
			})
		}
	}
}

var nonNFKD = []strCase{{"e-acute", "\u00e9"}, {"A-ring", "\u00c5"}, {"angstrom", "\u212b"}, {"fi-ligature", "\ufb01"}, {"fullwidth-a", "\uff41"}, {"hangul", "\ud55c\uae00"}, {"katakana-ga", "\u30ac"}, {"nbsp", "a\u00a0b"}, {"superscript-2", "\u00b2"}, {"trezor-japanese", "\u338d\u30ac\u30d0\u30f4\u30a1\u3071\u3070\u3050\u309e\u3061\u3062\u5341\u4eba\u5341\u8272"}, {"umlaut-word", "p\u00e4ssw\u00f6rd"}, {"reordered-marks", "a\u0301\u0323"}}

func c06(c *mc.C) {
	// lists too short to encode with: lookup, retrieval and decoding
	short := map[string][]string{"nil": nil, "empty": {}, "one": {"zoo"}, "two": {"zoo", "abandon"}, "2047": ref.Lists["english"][:2047], "2049": append(ref.Lists["english"][:2048:2048], "lamplighter")}
	shorts := []string{"nil", "empty", "one", "two", "2047", "2049"}
	sel := func(n string) []string {
		if l, ok := short[n]; ok {
			if l != nil {
				l = append([]string{}, l...)
			}
			bip39.SetWordList(l)
			return l
		}
		use(n)
		return refList(n)
	}
	for _, a := range append([]string{"english", "japanese", "custom-reversed"}, shorts...) {
		for _, b := range append([]string{"english", "custom-one"}, shorts...) {
			a, b := a, b
			c.Case(mc.N("lists of other lengths: %s, %s", a, b), func(t *mc.T) {
				sel(a)
				bip39.EntropyFromMnemonic(strings.Repeat("zoo ", 12))
				l := sel(b)
				g := bip39.GetWordList()
				t.Step()
				if len(g) != len(l) {
					t.Failf("after %s, %s: list has %d words", a, b, len(g))
				}
				idx := ref.IndexOf(l)
				for i := range l {
					if g[i] != l[i] {
						t.Failf("after %s, %s: word %d is %q, want %q", a, b, i, g[i], l[i])
					}
				}
				for _, ws := range [][]string{refList("english"), l, {"", "lamplighter"}} {
					for _, w := range ws {
						gi, ok := bip39.GetWordIndex(w)
						t.Step()
						if wi, wok := idx[w]; ok != wok || ok && gi != wi {
							t.Failf("after %s, %s: index of %q is %d,%v, want %d,%v", a, b, w, gi, ok, wi, wok)
						}
					}
				}
				if len(l) <= 2048 {
					for _, k := range sizes {
						s := ref.Sentence(detBytes("c060", k), refList("english"))
						d, err := bip39.EntropyFromMnemonic(s)
						t.Step()
						if _, werr := ref.DecodeString(s, idx); (err == nil) != (werr == nil) {
							t.Failf("after %s, %s: %q decodes to %x, %v; model %v", a, b, s, d, err, werr)
						}
					}
				}
				t.State("lengths", a, b)
			})
		}
	}
	famHistories(c, "list", "index", "encode", "decode")
	names := append(append([]string(nil), ref.ListNames...), customNames...)
	names = append(names, "shared-english", "shared-japanese", "shared-custom-swapped")
	for _, n := range ref.ListNames {
		n := n
		c.Case(mc.N("list %s is the official one", n), func(t *mc.T) {
			l := implLists[n]
			if len(l) != 2048 {
				t.Failf("%d words", len(l))
			}
			seen := map[string]bool{}
			for i, w := range l {
				t.Step()
				if w != refList(n)[i] {
					t.Failf("word %d is %q, official %q", i, w, refList(n)[i])
				}
				if seen[w] {
					t.Failf("%q twice", w)
				}
				seen[w] = true
			}
			t.State(n)
		})
	}
	// the list active before any selection
	c.Case(mc.N("default list, fresh process"), func(t *mc.T) {
		out := freshProcess(t, "deflist")
		if out != ref.Sentence(detBytes("def", 16), refList("english"))+"\n" {
			t.Failf("fresh process encodes %q", out)
		}
		t.State("default")
	})
	depth := 3
	if c.Thorough {
		depth = 4
	}
	all := map[string]bool{}
	for _, n := range names {
		for _, w := range refList(n) {
			all[w] = true
		}
	}
	words := make([]string, 0, len(all))
	for w := range all {
		words = append(words, w)
	}
	sort.Strings(words)
	after := func(t *mc.T, n string, hist []string, full bool) {
		l, idx := refList(n), refIdx[strings.TrimPrefix(n, "shared-")]
		g := bip39.GetWordList()
		t.Step()
		if len(g) != len(l) {
			t.Failf("after %v: list has %d words", hist, len(g))
		}
		for i := range l {
			if g[i] != l[i] {
				t.Failf("after %v: word %d is %q, want %q", hist, i, g[i], l[i])
			}
		}
		for _, k := range sizes {
			for v := 0; v < 2; v++ {
				e := detBytes(fmt.Sprintf("c06%d", v), k)
				s := encCheck(t, e, l)
				if d, err := bip39.EntropyFromMnemonic(s); err != nil || !bytes.Equal(d, e) {
					t.Failf("after %v: %q decodes to %x, %v", hist, s, d, err)
				}
			}
		}
		for _, h := range hist { // sentences of earlier lists are judged by the current one
			s := ref.Sentence(detBytes("c060", 16), refList(h))
			_, werr := ref.DecodeString(s, idx)
			if d, err := bip39.EntropyFromMnemonic(s); (err == nil) != (werr == nil) {
				t.Failf("after %v: sentence of %s decodes to %x, %v; model %v", hist, h, d, err, werr)
			}
		}
		ws := words
		if !full {
			ws = append(append([]string(nil), l...), refList(hist[0])...)
		}
		for _, w := range ws {
			gi, ok := bip39.GetWordIndex(w)
			wi, wok := idx[w]
			if ok != wok || ok && gi != wi {
				t.Failf("after %v: index of %q is %d,%v, want %d,%v", hist, w, gi, ok, wi, wok)
			}
		}
		for _, w := range []string{"", " ", "ABANDON", "abandon "} {
			if _, ok := bip39.GetWordIndex(w); ok {
				t.Failf("after %v: %q has an index", hist, w)
			}
		}
	}
	var walk func(h []string)
	walk = func(h []string) {
		if len(h) > 0 {
			h := append([]string(nil), h...)
			c.Case(mc.N("history %s", strings.Join(h, ",")), func(t *mc.T) {
				for i, n := range h {
					use(n)
					if i == len(h)-1 {
						after(t, n, h, len(h) <= 2)
						if len(h) <= 2 { // selecting the retrieved list changes nothing
							bip39.SetWordList(bip39.GetWordList())
							after(t, n, h, false)
						}
					} else { // exercise the library in between, so that anything it keeps would show
						s, _ := bip39.NewMnemonic(detBytes("c060", 16))
						bip39.EntropyFromMnemonic(s)
						bip39.GetWordIndex(refList(n)[5])
					}
				}
				t.State(strings.Join(h, ","))
			})
		}
		if len(h) == depth {
			return
		}
		for _, n := range names {
			walk(append(h, n))
		}
	}
	walk(nil)
}

// script is a random source that fails as told.
type script struct {
	data  []byte
	pos   int
	chunk int
	fail  int // offset at which it fails; -1 never
	mode  string
	zero  bool // deliver nothing now and then
	calls int
	hit   bool // the failure was reported to the caller
}

var errRand = errors.New("scripted failure")

func (s *script) Read(p []byte) (int, error) {
	s.calls++
	if s.zero && s.calls%3 == 1 {
		return 0, nil
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.fail >= 0 && s.pos+n > s.fail {
		n = s.fail - s.pos
		if n > 0 && s.mode != "witherr" {
			// deliver what is left first
		} else {
			s.hit = true
			copy(p, s.data[s.pos:s.pos+n])
			s.pos += n
			if s.mode == "eof" {
				return n, io.EOF
			}
			if s.mode == "unexpected" {
				return n, io.ErrUnexpectedEOF
			}
			return n, errRand
		}
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

func withRand(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

type randAPI struct {
	name string
	n    int // bytes it must take
	call func() (out []byte, text string, err error)
}

func randAPIs() (apis []randAPI) {
	type api = randAPI
	for _, n := range sizes {
		n := n
		apis = append(apis, api{fmt.Sprintf("NewEntropy(%d)", n*8), n, func() ([]byte, string, error) { b, err := bip39.NewEntropy(n * 8); return b, "", err }})
		apis = append(apis, api{fmt.Sprintf("GenerateMnemonic(%d)", n*3/4), n, func() ([]byte, string, error) {
			s, err := util.GenerateMnemonic(byte(n * 3 / 4))
			return nil, s, err
		}})
	}
	return append(apis, api{"bip32.NewSeed", 256, func() ([]byte, string, error) { b, err := bip32.NewSeed(); return b, "", err }})
}

// randStep makes one call under a source that is fine (mode 0), fails at once
// (1), half way (2), at the last byte (3), or delivers single bytes (4).
func randStep(a randAPI, mode int, data []byte) string {
	s := &script{data: data, fail: -1, mode: "error"}
	switch mode {
	case 1:
		s.fail = 0
	case 2:
		s.fail = a.n / 2
	case 3:
		s.fail = a.n - 1
	case 4:
		s.chunk = 1
	}
	var out []byte
	var text string
	var err error
	withRand(s, func() { out, text, err = a.call() })
	if s.fail >= 0 {
		if err == nil || len(out) > 0 || text != "" {
			return fmt.Sprintf("%s under a failing source (%d): %x %q %v", a.name, mode, out, text, err)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s: %v", a.name, err)
	}
	if strings.HasPrefix(a.name, "Gen") {
		if w := ref.Sentence(data[:a.n], refList("english")); text != w {
			return fmt.Sprintf("%s = %q, want %q", a.name, text, w)
		}
	} else if !bytes.Equal(out, data[:a.n]) {
		return fmt.Sprintf("%s = %x, want %x", a.name, out, data[:a.n])
	}
	for i := range out[:cap(out)] { // the caller does what it likes with it
		out[:cap(out)][i] ^= 0x77
	}
	return ""
}

func init() {
	probes["rand"] = func(after []string) {
		useEverything(after)
		use("english")
		for i, a := range randAPIs() {
			for mode := 0; mode < 5; mode++ {
				if e := randStep(a, mode, detBytes(fmt.Sprint("randprobe", i, mode), 512)); e != "" {
					fmt.Println(e)
				}
			}
		}
	}
}

func c07(c *mc.C) {
	type api = randAPI
	apis := randAPIs()
	for _, f := range histFams() {
		f := f
		c.Case(mc.N("generation after %s operations", f), func(t *mc.T) {
			if out := freshProcess(t, "rand", f); out != "" {
				t.Failf("%.800s", out)
			}
			t.Step()
			t.State("after", f)
		})
	}
	for ai, a := range apis { // every history of two or three calls, each under its own source
		for am := 0; am < 5; am++ {
			a, ai, am := a, ai, am
			c.Case(mc.N("generation histories from %s mode %d", a.name, am), func(t *mc.T) {
				use("english")
				for bi, b := range apis {
					for bm := 0; bm < 5; bm++ {
						for ci, cc := range apis {
							for cm := 0; cm < 5; cm += 4 {
								if !c.Thorough && bi != ai && ci != ai && ci != bi && cm > 0 {
									continue
								}
								for k, e := range []string{
									randStep(a, am, detBytes(fmt.Sprint("rh1", ai, am, bi, bm), 300)),
									randStep(b, bm, detBytes(fmt.Sprint("rh2", bi, bm, ci), 300)),
									randStep(cc, cm, detBytes(fmt.Sprint("rh3", ci, cm, ai), 300))} {
									if e != "" {
										t.Failf("call %d of %s/%d, %s/%d, %s/%d: %s", k+1, a.name, am, b.name, bm, cc.name, cm, e)
									}
									t.Step()
								}
								t.State(ai, am, bi, bm, ci, cm)
							}
						}
					}
				}
				t.Outcome("history of generation calls")
			})
		}
	}
	data := detBytes("random", 4096)
	check := func(t *mc.T, a api, s *script) {
		use("english")
		var out []byte
		var text string
		var err error
		withRand(s, func() { t.Try(a.name, func() { out, text, err = a.call() }) })
		t.Step()
		failed := s.hit && s.pos < a.n
		if failed {
			t.Outcome("source failed")
			if err == nil {
				t.Failf("%s: source failed at byte %d (%s, chunk %d) and no error was reported; returned %x %q", a.name, s.fail, s.mode, s.chunk, out, text)
			}
			if len(out) != 0 || text != "" {
				t.Failf("%s: source failed at byte %d (%s, chunk %d): error %v, but %x %q came back", a.name, s.fail, s.mode, s.chunk, err, out, text)
			}
			return
		}
		t.Outcome("delivered")
		if err != nil {
			t.Failf("%s: %v though the source delivered %d bytes", a.name, err, s.pos)
		}
		if s.pos < a.n {
			t.Failf("%s took %d bytes from the random source, needs %d", a.name, s.pos, a.n)
		}
		want := s.data[:a.n]
		if text != "" || strings.HasPrefix(a.name, "Gen") {
			if w := ref.Sentence(want, refList("english")); text != w {
				t.Failf("%s = %q, want %q", a.name, text, w)
			}
		} else if !bytes.Equal(out, want) {
			t.Failf("%s = %x, want %x", a.name, out, want)
		}
	}
	for ai, a := range apis {
		for off := -1; off <= a.n; off++ {
			for _, mode := range []string{"error", "eof", "witherr", "unexpected"} {
				if off < 0 && mode != "error" {
					continue
				}
				a, ai, off, mode := a, ai, off, mode
				c.Case(mc.N("%s fails at %d mode %s", a.name, off, mode), func(t *mc.T) {
					for chunk := 0; chunk <= a.n; chunk++ {
						if a.n > 64 && chunk > 8 && chunk%31 != 0 {
							continue
						}
						for _, z := range []bool{false, true} {
							check(t, a, &script{data: data, chunk: chunk, fail: off, mode: mode, zero: z})
							t.State(ai, off, mode, chunk, z)
						}
					}
				})
			}
		}
		a := a
		c.Case(mc.N("%s: consecutive calls", a.name), func(t *mc.T) {
			s := &script{data: data, fail: -1}
			for i := 0; i < 4; i++ {
				start := s.pos
				var out []byte
				var text string
				var err error
				withRand(s, func() { out, text, err = a.call() })
				t.Step()
				if err != nil || s.pos < start+a.n {
					t.Failf("call %d took %d bytes, %v", i, s.pos-start, err)
				}
				want := data[start : start+a.n]
				if text != "" {
					if text != ref.Sentence(want, refList("english")) {
						t.Failf("call %d returned %q", i, text)
					}
				} else if !bytes.Equal(out, want) {
					t.Failf("call %d returned %x, want %x", i, out, want)
				}
			}
			// a failure and then a working source
			f := &script{data: data, fail: a.n - 1, mode: "error"}
			withRand(f, func() { a.call() })
			check(t, a, &script{data: data[100:], fail: -1})
			t.State(a.name)
		})
		for v := 0; v < 256; v++ { // every byte value at every offset reaches the result
			v := v
			c.Case(mc.N("%s: all bytes %02x", a.name, v), func(t *mc.T) {
				check(t, a, &script{data: bytes.Repeat([]byte{byte(v)}, 4096), fail: -1})
				t.State(a.name, v)
			})
		}
	}
	okBits := map[int]bool{128: true, 160: true, 192: true, 224: true, 256: true}
	bitsList := []int{1 << 20, -1 << 31, 1<<31 - 1, 1<<32 + 128, 1<<16 + 128, -128, -256, 384, 512, 1024}
	for b := -300; b <= 700; b++ {
		bitsList = append(bitsList, b)
	}
	for _, b := range bitsList {
		b := b
		c.Case(mc.N("NewEntropy of %d bits", b), func(t *mc.T) {
			s := &script{data: data, fail: -1}
			var out []byte
			var err error
			withRand(s, func() { t.Try("NewEntropy", func() { out, err = bip39.NewEntropy(b) }) })
			t.Step()
			if okBits[b] {
				if err != nil || len(out)*8 != b {
					t.Failf("NewEntropy(%d): %d bytes, %v", b, len(out), err)
				}
			} else if err == nil || len(out) != 0 {
				t.Failf("NewEntropy(%d): %x, %v", b, out, err)
			}
			t.State(b)
		})
	}
	okWords := map[int]bool{12: true, 15: true, 18: true, 21: true, 24: true}
	for w := 0; w < 256; w++ {
		w := w
		c.Case(mc.N("GenerateMnemonic of %d words", w), func(t *mc.T) {
			for _, ln := range append(append([]string(nil), ref.ListNames...), customNames...) {
				use(ln)
				s := &script{data: data, fail: -1}
				var text string
				var err error
				withRand(s, func() { t.Try("GenerateMnemonic", func() { text, err = util.GenerateMnemonic(byte(w)) }) })
				t.Step()
				if okWords[w] {
					if want := ref.Sentence(data[:w/3*4], refList(ln)); err != nil || text != want {
						t.Failf("GenerateMnemonic(%d) under %s: %q, %v; want %q", w, ln, text, err, want)
					}
				} else if err == nil || text != "" {
					t.Failf("GenerateMnemonic(%d): %q, %v", w, text, err)
				}
				t.State(w, ln)
			}
		})
	}
	_ = time.Now
}

func init() {
	probes["deflist"] = func([]string) {
		s, _ := bip39.NewMnemonic(detBytes("def", 16))
		fmt.Println(s)
	}
}
