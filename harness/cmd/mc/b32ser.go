package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"strings"

	"github.com/mearaj/bips/bip32"
	"verifmc/mc"
	"verifmc/ref"
)

// bodies is the alphabet of 32-byte payload bodies.
func bodies() []named {
	o := []named{{"0", bi(0)}, {"1", bi(1)}, {"2", bi(2)}, {"5 (off curve)", bi(5)},
		{"n-1", new(big.Int).Sub(ref.N, bi(1))}, {"n", ref.N}, {"n+1", new(big.Int).Add(ref.N, bi(1))},
		{"p-1", new(big.Int).Sub(ref.P, bi(1))}, {"p-2", new(big.Int).Sub(ref.P, bi(2))}, {"p-3", new(big.Int).Sub(ref.P, bi(3))}, {"p", ref.P}, {"p+1", new(big.Int).Add(ref.P, bi(1))}, {"p+2", new(big.Int).Add(ref.P, bi(2))},
		{"max", new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))}, {"max-1", new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(2))},
		{"Gx", ref.G.X}, {"Gy", ref.G.Y}, {"2^255", new(big.Int).Lsh(bi(1), 255)}, {"x11", ref.BaseMult(specialScalars[8].v).X}}
	for j := 0; j < 32; j += 3 {
		b := detBytes(fmt.Sprintf("body%d", j), 32)
		for i := 0; i < j; i++ {
			b[i] = 0
		}
		o = append(o, named{fmt.Sprintf("z%d", j), new(big.Int).SetBytes(b)})
	}
	return o
}

// verdict is the model's acceptance of a 78-byte key. known=false: the version
// is not registered, and a key that is otherwise good may go either way.
func verdict(k ref.XKey) (ok, known bool) {
	_, good := k.Point()
	if !good {
		return false, true
	}
	if k.Depth == 0 && (k.FP != [4]byte{} || k.CN != 0) {
		return false, true
	}
	_, pv := pubOf[k.Ver]
	pb := isPub[k.Ver]
	if !pv && !pb {
		return true, false
	}
	if k.Private() && !pv || !k.Private() && !pb {
		return false, true
	}
	return true, true
}

// goodKeys are valid keys of registered versions in many shapes.
func goodKeys(thorough bool) []namedKey {
	var o []namedKey
	meta := []struct {
		n  string
		d  byte
		fp string
		cn uint32
	}{{"master", 0, "\x00\x00\x00\x00", 0}, {"d1", 1, "abcd", hard}, {"d1fp0", 1, "\x00\x00\x00\x00", 0}, {"d3", 3, "\x00\xff\x00\x01", 5}, {"d255", 255, "\xff\xff\xff\xff", 0xffffffff}, {"d128", 128, "\x01\x00\x00\x00", 256}}
	for pi, p := range pairs {
		ss := allScalars()
		for si, s := range ss {
			if !thorough && pi > 0 && si%7 != pi%7 {
				continue
			}
			for mi, m := range meta {
				if !thorough && (si+mi+pi)%3 != 0 && mi > 1 {
					continue
				}
				k := prvKey(p.prv, s.v, ccAlphabet[(si+mi+pi)%len(ccAlphabet)])
				k.Depth, k.CN = m.d, m.cn
				copy(k.FP[:], m.fp)
				o = append(o, namedKey{fmt.Sprintf("prv#%d/%s/%s", pi, s.name, m.n), k})
				o = append(o, namedKey{fmt.Sprintf("pub#%d/%s/%s", pi, s.name, m.n), k.Neuter(p.pub)})
			}
		}
	}
	return o
}

func c13(c *mc.C) {
	famHistories(c, "ser", "deser", "text")
	alikeCases(c, "serialize")
	for _, nk := range goodKeys(c.Thorough) {
		nk := nk
		c.Case(mc.N("%s", nk.name), func(t *mc.T) { roundTrip(t, nk.k); b := nk.k.Bytes(); t.State(b[:]) })
	}
	for _, zp := range zeroPoints() {
		zp := zp
		c.Case(mc.N("point %s", zp.name), func(t *mc.T) {
			for _, p := range pairs {
				k := ref.XKey{Ver: p.pub, Depth: 9, CN: 1, CC: det32("c13"), Key: ref.Compress(zp.p)}
				roundTrip(t, k)
			}
			t.State(zp.name)
		})
	}
	// keys whose checksum has 00 or ff bytes at chosen places
	for _, v := range []byte{0, 0xff} {
		for mask := 1; mask < 16; mask++ {
			if bits.OnesCount(uint(mask)) > 2 {
				continue
			}
			for bi2, base := range append(denseBases(), denseBases()[1].Neuter(0x04b24746)) {
				v, mask, base, bi2 := v, mask, base, bi2
				c.Case(mc.N("checksum bytes %04b = %02x, base %d", mask, v, bi2), func(t *mc.T) {
					k := base
				next:
					for n := uint32(0); ; n++ {
						binary.BigEndian.PutUint32(k.CC[28:], n)
						b := k.Bytes()
						cs := ref.DblSha4(b[:])
						for i := range cs {
							if mask>>i&1 == 1 && cs[i] != v {
								continue next
							}
						}
						break
					}
					roundTrip(t, k)
					b := k.Bytes()
					t.State(b[:])
				})
			}
		}
	}
	both := func(f func(t *mc.T, k ref.XKey)) func(t *mc.T, k ref.XKey) {
		return func(t *mc.T, k ref.XKey) { f(t, k); f(t, k.Neuter(pubOf[k.Ver])) }
	}
	keyProducts(c, allScalars(), both(roundTrip))
	keySweep(c, both(roundTrip))
	c.Case(mc.N("all-zero key"), func(t *mc.T) {
		var k bip32.Key
		t.Step()
		b, err := k.Serialize()
		if err == nil || len(b) != 0 {
			t.Failf("the all-zero key serialized to %x", b)
		}
		if s := k.B58Serialize(); s != "" {
			t.Failf("the all-zero key has text %q", s)
		}
		if s := k.String(); s != "" {
			t.Failf("the all-zero key prints as %q", s)
		}
		if k.IsValid() {
			t.Failf("the all-zero key is valid")
		}
		t.State("zero")
	})
	// keys with a single non-zero byte are not the all-zero key
	for p := 0; p < 78; p++ {
		for _, v := range []byte{1, 0x80, 0xff} {
			p, v := p, v
			c.Case(mc.N("single byte %02x at %d", v, p), func(t *mc.T) {
				var k bip32.Key
				k[p] = v
				b, err := k.Serialize()
				t.Step()
				if err != nil || !bytes.Equal(b, ref.WithChecksum(k[:])) {
					t.Failf("Serialize: %x, %v", b, err)
				}
				if k.B58Serialize() != ref.B58Encode(b) {
					t.Failf("B58Serialize: %s", k.B58Serialize())
				}
				t.State(p, v)
			})
		}
	}
	// texts: whatever is accepted re-encodes to itself
	vers := []uint32{0, 1, 0xff, 0x00ffffff, 0x0000ffff, xprv, xpub, 0xffffffff}
	for _, v := range vers {
		for _, pub := range []bool{false, true} {
			for ones := 0; ones < 6; ones++ {
				v, pub, ones := v, pub, ones
				c.Case(mc.N("text version %08x public=%v leading ones %+d", v, pub, ones-2), func(t *mc.T) {
					k := prvKey(v, bi(99), det32("ones"))
					if pub {
						k = k.Neuter(v)
					}
					s := k.B58()
					for i := 0; i < ones-2; i++ {
						s = "1" + s
					}
					if ones < 2 {
						s = strings.TrimPrefix(s, strings.Repeat("1", 2-ones))
					}
					accepted(t, s)
					t.State(v, pub, ones)
				})
			}
		}
	}
	base := prvKey(xprv, bi(12345), det32("texts")).B58()
	var texts []string
	for _, d := range []string{" ", "\n", "\t", "\x00", "1", "0", "O", "I", "l", "é"} {
		for p := 0; p <= len(base); p++ {
			texts = append(texts, base[:p]+d+base[p:])
		}
	}
	for i, s := range texts {
		i, s := i, s
		c.Case(mc.N("text with inserted char #%d", i), func(t *mc.T) { accepted(t, s); t.State(s) })
	}
}

func accepted(t *mc.T, s string) {
	var k bip32.Key
	var err error
	t.Try("B58Deserialize", func() { k, err = bip32.B58Deserialize(s) })
	t.Step()
	if err != nil {
		t.Outcome("text refused")
		return
	}
	t.Outcome("text accepted")
	if g := k.B58Serialize(); g != s {
		t.Failf("text %q was read and re-encodes to %q", s, g)
	}
}

func roundTrip(t *mc.T, x ref.XKey) {
	k := toKey(x)
	b, err := k.Serialize()
	t.Step()
	if err != nil || !bytes.Equal(b, x.Serialized()) {
		t.Failf("Serialize of %x: %x, %v", x.Bytes(), b, err)
	}
	s := k.B58Serialize()
	if s != x.B58() || k.String() != s {
		t.Failf("B58Serialize of %x: %s want %s", x.Bytes(), s, x.B58())
	}
	in := append([]byte(nil), b...)
	g, err := bip32.Deserialize(in)
	if err != nil || g != k {
		t.Failf("Deserialize(%x): %x, %v", b, g, err)
	}
	if !bytes.Equal(in, b) {
		t.Failf("Deserialize changed its input")
	}
	g, err = bip32.B58Deserialize(s)
	if err != nil || g != k {
		t.Failf("B58Deserialize(%s): %x, %v", s, g, err)
	}
	if !k.IsValid() {
		t.Failf("IsValid is false for %s", s)
	}
	if k != toKey(x) {
		t.Failf("serialization changed the key")
	}
	// accessors
	if k.IsPrivate() != x.Private() || k.GetVersion() != x.Ver || k.GetDepth() != (bip32.Depth{x.Depth}) ||
		k.GetFingerPrint() != bip32.FingerPrint(x.FP) || k.GetChainCode() != bip32.ChainCode(x.CC) ||
		k.GetKeyBytes() != bip32.KeyBytes(x.Key) || !bytes.Equal(func() []byte { p := k.GetPvtKeyBytes(); return p[:] }(), x.Key[1:]) {
		t.Failf("accessors disagree with the key bytes %x", x.Bytes())
	}
	cn := k.GetChildNumber()
	if uint32(cn[0])<<24|uint32(cn[1])<<16|uint32(cn[2])<<8|uint32(cn[3]) != x.CN {
		t.Failf("child number accessor %x", cn)
	}
}

func mustRefuse(t *mc.T, b []byte) {
	in := append([]byte(nil), b...)
	var err error
	for n := 0; n < 2; n++ { // the refusal must not wear off
		t.Try(fmt.Sprintf("Deserialize(%x)", b), func() { _, err = bip32.Deserialize(in) })
		t.Step()
		if err == nil {
			t.Failf("Deserialize(%x) succeeded (asked %d times)", b, n+1)
		}
	}
	if !bytes.Equal(in, b) {
		t.Failf("Deserialize changed its input")
	}
}

func mustRefuseText(t *mc.T, s string) {
	var err error
	for n := 0; n < 2; n++ {
		t.Try(fmt.Sprintf("B58Deserialize(%q)", s), func() { _, err = bip32.B58Deserialize(s) })
		t.Step()
		if err == nil {
			t.Failf("B58Deserialize(%q) succeeded (asked %d times)", s, n+1)
		}
	}
}

func c14(c *mc.C) {
	famHistories(c, "deser", "text")
	keys := []namedKey{
		{"xprv master", prvKey(xprv, new(big.Int).SetBytes(detBytes("c14", 32)), det32("c14cc"))},
		{"xpub d3", func() ref.XKey {
			k := prvKey(xprv, new(big.Int).SetBytes(detBytes("c14b", 32)), det32("c14cc2")).Neuter(xpub)
			k.Depth, k.CN = 3, 9
			copy(k.FP[:], "mnop")
			return k
		}()},
		{"sparse", func() ref.XKey { k := prvKey(xprv, bi(1), [32]byte{}); return k }()},
	}
	if c.Thorough {
		for i, nk := range goodKeys(false) {
			if i%40 == 0 {
				keys = append(keys, nk)
			}
		}
	}
	for _, nk := range keys {
		nk := nk
		b, s := nk.k.Serialized(), nk.k.B58()
		for p := 0; p < 82; p++ {
			p := p
			c.Case(mc.N("%s byte %d", nk.name, p), func(t *mc.T) {
				for v := 0; v < 256; v++ {
					m := append([]byte(nil), b...)
					if m[p] == byte(v) {
						continue
					}
					m[p] = byte(v)
					mustRefuse(t, m)
					mustRefuseText(t, ref.B58Encode(m))
					t.State(m)
				}
				if p+1 < 82 && b[p] != b[p+1] {
					m := append([]byte(nil), b...)
					m[p], m[p+1] = m[p+1], m[p]
					mustRefuse(t, m)
				}
				// deletion, insertion
				mustRefuse(t, append(append([]byte(nil), b[:p]...), b[p+1:]...))
				for _, v := range []byte{0, 1, b[p], 0xff} {
					mustRefuse(t, append(append(append([]byte(nil), b[:p]...), v), b[p:]...))
				}
				mustRefuse(t, b[:p])
				mustRefuse(t, append(append([]byte(nil), b...), make([]byte, p+1)...))
				mustRefuse(t, append(append([]byte(nil), b...), b[:p+1]...))
				mustRefuse(t, append(make([]byte, p+1), b...))
			})
		}
		for p := 0; p < len(s); p++ {
			p := p
			c.Case(mc.N("%s char %d", nk.name, p), func(t *mc.T) {
				for v := 0; v < 256; v++ {
					if s[p] == byte(v) {
						continue
					}
					m := s[:p] + string([]byte{byte(v)}) + s[p+1:]
					mustRefuseText(t, m)
					t.State(m)
				}
				for _, r := range []string{"é", "１", "А", "\u200b", ""} {
					mustRefuseText(t, s[:p]+r+s[p+1:])
				}
				if p+1 < len(s) && s[p] != s[p+1] {
					mustRefuseText(t, s[:p]+string([]byte{s[p+1], s[p]})+s[p+2:])
				}
				mustRefuseText(t, s[:p])
				mustRefuseText(t, s[p+1:])
				for v := 0; v < 58; v++ {
					ch := string("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[v])
					mustRefuseText(t, s[:p]+ch+s[p:])
				}
				mustRefuseText(t, s+s[:p+1])
			})
		}
		for n := 0; n < 40; n++ {
			n := n
			c.Case(mc.N("%s + %d spaces/ones", nk.name, n+1), func(t *mc.T) {
				for _, ch := range []string{" ", "1", "\n", "\x00", "z", "0"} {
					mustRefuseText(t, s+strings.Repeat(ch, n+1))
					mustRefuseText(t, strings.Repeat(ch, n+1)+s)
				}
				t.State(n)
			})
		}
	}
	for _, nk := range keys[:2] {
		s := nk.k.B58()
		b := nk.k.Serialized()
		grouped(c, nk.name+" text", s, "", mustRefuseText)
		around(c, nk.name+" text", s, aroundToks, mustRefuseText, 4, len(s)/2, len(s)-1)
		for x := 0; x < 256; x++ {
			x := x
			c.Case(mc.N("%s with two more bytes %02x *", nk.name, x), func(t *mc.T) {
				for y := 0; y < 256; y++ {
					e := []byte{byte(x), byte(y)}
					mustRefuse(t, append(append([]byte(nil), b...), e...))
					mustRefuse(t, append(append([]byte(nil), e...), b...))
					mustRefuse(t, append(append([]byte{byte(x)}, b...), byte(y)))
					mustRefuseText(t, ref.B58Encode(append(append([]byte(nil), b...), e...)))
				}
				t.State(nk.name, x)
			})
		}
	}
	// arbitrary malformed inputs
	for n := 0; n <= 300; n++ {
		n := n
		c.Case(mc.N("junk of length %d", n), func(t *mc.T) {
			for k := 0; k < 5; k++ {
				b := fill(k, n)
				if n != 82 {
					mustRefuse(t, b)
					if n > 4 {
						mustRefuse(t, ref.WithChecksum(b[:n-4]))
					}
				} else {
					t.Try("Deserialize", func() { bip32.Deserialize(b) })
				}
				mustRefuseText(t, string(b))
			}
			for _, ch := range []string{"1", "z", "2", "x", "l", "é"} {
				mustRefuseText(t, strings.Repeat(ch, n))
			}
			t.State(n)
		})
	}
	c.Case(mc.N("nil and empty"), func(t *mc.T) {
		mustRefuse(t, nil)
		mustRefuse(t, []byte{})
		mustRefuseText(t, "")
		mustRefuseText(t, strings.Repeat("z", 20000))
		t.State("nil")
	})
}

func c15(c *mc.C) {
	famHistories(c, "deser", "text", "ser")
	alikeCases(c, "valid")
	vers := []uint32{}
	for _, p := range pairs {
		vers = append(vers, p.prv, p.pub)
	}
	reg := len(vers)
	vers = append(vers, 0, 0xffffffff, xprv+1, xpub^0x80000000)
	type meta struct {
		d  byte
		fp string
		cn uint32
	}
	metas := []meta{{0, "\x00\x00\x00\x00", 0}, {0, "\x00\x00\x00\x01", 0}, {0, "\x80\x00\x00\x00", 0}, {0, "\x00\x00\x00\x00", 1}, {0, "\x00\x00\x00\x00", hard}, {0, "abcd", 7},
		{1, "\x00\x00\x00\x00", 0}, {1, "abcd", 0}, {1, "abcd", hard}, {255, "\xff\xff\xff\xff", 0xffffffff}, {128, "abcd", 3}}
	bs := bodies()
	for vi, v := range vers {
		for bi2, body := range bs {
			vi, v, bi2, body := vi, v, bi2, body
			c.Case(mc.N("version#%d %08x body %s", vi, v, body.name), func(t *mc.T) {
				for pfx := 0; pfx < 256; pfx++ {
					if pfx > 7 && vi > 3 && vi < reg && !c.Thorough && pfx%16 > 4 {
						continue
					}
					for mi, m := range metas {
						if mi > 6 && pfx > 4 {
							continue
						}
						k := ref.XKey{Ver: v, Depth: m.d, CN: m.cn, CC: ccAlphabet[bi2%len(ccAlphabet)]}
						copy(k.FP[:], m.fp)
						k.Key[0] = byte(pfx)
						b := ref.Bytes32(body.v)
						copy(k.Key[1:], b[:])
						judge(t, k)
					}
				}
				t.State(v, body.name)
			})
		}
	}
	for _, nk := range goodKeys(c.Thorough) {
		nk := nk
		c.Case(mc.N("good key %s", nk.name), func(t *mc.T) { judge(t, nk.k); b := nk.k.Bytes(); t.State(b[:]) })
	}
	for _, zp := range zeroPoints() {
		zp := zp
		c.Case(mc.N("point %s", zp.name), func(t *mc.T) {
			for _, v := range vers {
				judge(t, ref.XKey{Ver: v, CC: det32("c15"), Key: ref.Compress(zp.p)})
			}
			t.State(zp.name)
		})
	}
	both := func(t *mc.T, k ref.XKey) {
		judge(t, k)
		n := k.Neuter(pubOf[k.Ver])
		judge(t, n)
		n.Ver = k.Ver // private version, public payload
		judge(t, n)
		n = k
		n.Ver = pubOf[k.Ver]
		judge(t, n)
	}
	keyProducts(c, allScalars(), both)
	keySweep(c, both)
	// depth zero with two non-zero bytes in fingerprint and child number
	metaVals := []byte{1, 0x7f, 0x80, 0xff}
	for p := 0; p < 8; p++ {
		p := p
		c.Case(mc.N("master with byte %d of fingerprint and number set", p), func(t *mc.T) {
			base := denseBases()[0]
			try := func(f func(b *[8]byte)) {
				var b [8]byte
				f(&b)
				k := base
				copy(k.FP[:], b[:4])
				k.CN = binary.BigEndian.Uint32(b[4:])
				judge(t, k)
				judge(t, k.Neuter(pubOf[k.Ver]))
				t.State(b)
			}
			for v := 1; v < 256; v++ {
				try(func(b *[8]byte) { b[p] = byte(v) })
			}
			for q := p + 1; q < 8; q++ {
				for v := 1; v < 256; v++ { // equal, and cancelling sums
					try(func(b *[8]byte) { b[p], b[q] = byte(v), byte(v) })
					try(func(b *[8]byte) { b[p], b[q] = byte(v), byte(256-v) })
				}
				for _, v := range metaVals {
					for _, w := range metaVals {
						try(func(b *[8]byte) { b[p], b[q] = v, w })
						for r := q + 1; r < 8; r++ {
							for _, x := range metaVals {
								try(func(b *[8]byte) { b[p], b[q], b[r] = v, w, x })
							}
						}
					}
				}
			}
		})
	}
	// every x near zero and near the field size, both parities
	n := 512
	if c.Thorough {
		n = 8192
	}
	for i := 0; i < n; i++ {
		i := i
		c.Case(mc.N("abscissa %d and p-%d", i, i), func(t *mc.T) {
			for _, x := range []*big.Int{bi(int64(i)), new(big.Int).Sub(ref.P, bi(int64(i))), new(big.Int).Sub(ref.N, bi(int64(i-8))), new(big.Int).SetBytes(detBytes(fmt.Sprintf("absc%d", i), 32))} {
				b := ref.Bytes32(x)
				for pfx := byte(0); pfx < 5; pfx++ {
					for _, v := range []uint32{xprv, xpub} {
						k := ref.XKey{Ver: v, CC: det32("c15")}
						k.Key[0] = pfx
						copy(k.Key[1:], b[:])
						judge(t, k)
					}
				}
			}
			t.State(i)
		})
	}
}

func judge(t *mc.T, k ref.XKey) {
	ok, known := verdict(k)
	kk := toKey(k)
	if kk == (bip32.Key{}) {
		return
	}
	var err, err2 error
	var g bip32.Key
	var valid bool
	t.Try(fmt.Sprintf("reading %x", kk), func() {
		g, err = bip32.Deserialize(k.Serialized())
		_, err2 = bip32.B58Deserialize(k.B58())
		valid = kk.IsValid()
	})
	t.Step()
	if (err == nil) != (err2 == nil) || (err == nil) != valid {
		t.Failf("verdicts differ on %x: bytes %v, text %v, IsValid %v", kk, err, err2, valid)
	}
	if !known && ok {
		t.Outcome("unregistered version")
	} else if ok {
		t.Outcome("accepted")
		if err != nil {
			t.Failf("a valid key was refused: %x: %v", kk, err)
		}
	} else {
		t.Outcome("refused")
		if err == nil {
			t.Failf("an invalid key was accepted: %x", kk)
		}
	}
	if err == nil && g != kk {
		t.Failf("read %x as %x", kk, g)
	}
	var e1, e2 error
	t.Try(fmt.Sprintf("reading %x again", kk), func() {
		_, e1 = bip32.Deserialize(k.Serialized())
		_, e2 = bip32.B58Deserialize(k.B58())
		valid = kk.IsValid()
	})
	if (e1 == nil) != (err == nil) || (e2 == nil) != (err == nil) || valid != (err == nil) {
		t.Failf("the verdict on %x changed from %v: bytes %v, text %v, IsValid %v", kk, err, e1, e2, valid)
	}
}

// versionTable exercises every registered version; its text is compared
// between fresh processes (each has its own map iteration order).
func versionTable(fail func(string, ...any)) string {
	var sb strings.Builder
	s := new(big.Int).SetBytes(detBytes("c16", 32))
	for _, r := range slip {
		k := prvKey(r.prv, s, det32("c16cc"))
		var nodes []ref.XKey
		for _, i := range []uint32{0, hard + 1} {
			kk := toKey(k)
			g, err := kk.NewChildKey(i)
			w, _ := k.Child(i, ref.HMAC512)
			if err != nil || diffKey(g, w) != "" {
				fail("%s %08x: child %d: %v %s", r.coin, r.prv, i, err, diffKey(g, w))
				continue
			}
			nodes = append(nodes, w)
			fmt.Fprintf(&sb, "%x\n", g)
		}
		for _, x := range append(nodes, k) {
			xx := toKey(x)
			n := xx.PublicKeyExtended()
			if d := diffKey(n, x.Neuter(r.pub)); d != "" {
				fail("%s %08x: public key: %s", r.coin, r.prv, d)
			}
			if n2 := n.PublicKeyExtended(); n2 != n {
				fail("%s %08x: public key of the public key: %s", r.coin, r.pub, diffKey(n2, fromKey(n)))
			}
			pc, err := n.NewChildKey(3)
			w, _ := x.Neuter(r.pub).Child(3, ref.HMAC512)
			if err != nil || diffKey(pc, w) != "" {
				fail("%s %08x: public child: %v %s", r.coin, r.pub, err, diffKey(pc, w))
				continue
			}
			fmt.Fprintf(&sb, "%x %x\n", n, pc)
		}
	}
	return sb.String()
}

func c16(c *mc.C) {
	famHistories(c, "child", "neuter")
	c.Case(mc.N("all registered versions, this process (shard-independent)"), func(t *mc.T) {
		versionTable(t.Failf)
		t.State("table")
		t.Step()
	})
	procs := 48
	if c.Thorough {
		procs = 600
	}
	for i := 0; i < procs; i++ {
		i := i
		c.Case(mc.N("all registered versions, fresh process %d", i), func(t *mc.T) {
			out := freshProcess(t, "versions")
			if strings.Contains(out, "FAIL") {
				t.Failf("fresh process: %s", out)
			}
			t.Step()
			t.State(len(out), i)
			t.Outcome("fresh process")
		})
	}
	s := new(big.Int).SetBytes(detBytes("c16b", 32))
	for ri, r := range slip {
		{
			ri, r := ri, r
			c.Case(mc.N("row %d %s %08x, purposes and coin types", ri, r.coin, r.prv), func(t *mc.T) {
				m := prvKey(r.prv, s, det32("c16cc"))
				p2 := []uint32{hard + 44, hard + 49, hard + 84}
				if p, ok := ref.ParsePath(r.path); ok && len(p) == 3 {
					p2 = append(p2, p[1])
				}
				for _, d := range []byte{0, 1, 2, 3} {
					k := m
					k.Depth = d
					for i, x := range purposeIdx {
						if d == 0 || c.Thorough || (i/2+int(d)+ri)%5 == 0 {
							childRef(t, k, x)
							t.State(ri, d, x)
						}
					}
				}
				for _, x := range p2 {
					k, err := childRef(t, m, x)
					if err != nil {
						continue
					}
					for _, coin := range []uint32{0, 1, 2, 60} {
						k2, err := childRef(t, k, hard+coin)
						if err != nil {
							continue
						}
						k3, err := childRef(t, k2, hard)
						if err != nil {
							continue
						}
						square(t, k3, 0)
						t.State(ri, x, coin)
					}
				}
			})
		}
		for _, idx := range edgeIdx {
			ri, r, idx := ri, r, idx
			c.Case(mc.N("row %d %s %08x idx %d", ri, r.coin, r.prv, idx), func(t *mc.T) {
				k := prvKey(r.prv, s, det32("c16cc"))
				if idx >= hard {
					childRef(t, k, idx)
				} else {
					square(t, k, idx)
				}
				t.State(ri, idx)
			})
		}
	}
	keyProducts(c, allScalars(), func(t *mc.T, k ref.XKey) {
		pv := pubOf[k.Ver]
		kk, kn := toKey(k), toKey(k.Neuter(pv))
		n := kk.PublicKeyExtended()
		t.Step()
		if n.GetVersion() != pv || kn.PublicKeyExtended() != n {
			t.Failf("public key of %s has version %08x, want %08x", k.B58(), n.GetVersion(), pv)
		}
		if k.Depth == 255 {
			return
		}
		if g, err := child(t, k, anyOf(k, 0)); err != nil || g.GetVersion() != k.Ver {
			t.Failf("child of %s has version %08x: %v", k.B58(), g.GetVersion(), err)
		}
		if g, err := child(t, k.Neuter(pv), softOf(k, 1)); err != nil || g.GetVersion() != pv {
			t.Failf("public child of %s has version %08x: %v", k.B58(), g.GetVersion(), err)
		}
	})
	refuse := func(t *mc.T, k ref.XKey) {
		for _, i := range []uint32{0, 1, hard - 1, hard, 0xffffffff} {
			var err error
			var g bip32.Key
			t.Try("NewChildKey", func() { g, err = child(t, k, i) })
			t.Step()
			t.Outcome("refused")
			if err == nil {
				t.Failf("derivation under version %08x (private=%v) gave %x", k.Ver, k.Private(), g)
			}
		}
	}
	unreg := func(v uint32) {
		c.Case(mc.N("unregistered version %08x", v), func(t *mc.T) {
			k := prvKey(v, s, det32("c16cc"))
			if _, ok := pubOf[v]; !ok {
				refuse(t, k)
			}
			if !isPub[v] {
				refuse(t, k.Neuter(v))
			}
			t.State(v)
		})
	}
	seen := map[uint32]bool{}
	add := func(v uint32) {
		if !seen[v] {
			seen[v] = true
			unreg(v)
		}
	}
	for _, p := range pairs {
		for _, v := range []uint32{p.prv, p.pub} {
			add(v)
			for b := uint(0); b < 32; b++ {
				add(v ^ 1<<b)
			}
			for by := uint(0); by < 4; by++ {
				for x := uint32(0); x < 256; x += 5 {
					if c.Thorough || x%25 == 0 {
						add(v&^(0xff<<(8*by)) | x<<(8*by))
					}
				}
			}
			add(v<<8 | v>>24)
			add(v>>24 | v>>8&0xff00 | v<<8&0xff0000 | v<<24)
		}
	}
	for _, v := range []uint32{0, 1, 0xffffffff, 0x80000000} {
		add(v)
	}
}

// freshProcess evaluates a named probe in a new process of this binary.
func freshProcess(t *mc.T, probe string, extra ...string) string {
	cmd := exec.Command(os.Args[0], extra...)
	cmd.Env = append(os.Environ(), "MC_PROBE="+probe)
	out, err := cmd.CombinedOutput()
	if err != nil {
		s := string(out)
		if len(s) > 1500 {
			s = s[:1500]
		}
		t.Failf("fresh process failed: %v: %s", err, s)
	}
	return string(out)
}

var probes = map[string]func(args []string){
	"versions": func([]string) {
		s := versionTable(func(f string, a ...any) { fmt.Printf("FAIL "+f+"\n", a...) })
		fmt.Print(s)
	},
}
