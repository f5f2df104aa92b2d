package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks,
		mc.Check{ID: "C08", Explore: c08, Rule: "seeds: every length 0..320 (quick) or 0..2048 (thorough) x 5 fill patterns, all single-byte seeds, every value of every byte, injected hash results of every boundary scalar and every byte value; hex front end: every byte length 0..80 x 3 patterns x 3 letter cases x odd/even, every position x a foreign character; oracle: own HMAC-SHA512 and BIP-32 model; histories of calls and repeated calls; the hex text with every one or two characters before, behind and around it, and in groups with separators; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C09", Explore: c09, Rule: "private parents: 43+ boundary scalars (every leading-zero count, group-order neighbours, scalars whose public point, fingerprint or address has corner bytes) x 4 chain codes x 19 edge indexes; pairwise and three-way products of all key fields; every value of every byte of base keys; every registered version; key trees explored breadth-first; ordered pairs of parents that agree in all but one field; consistent hash results injected so that child key / IL / chain code have every leading-zero count; histories of calls and repeated calls; the indexes of every registered purpose and coin; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C10", Explore: c10, Rule: "the commuting square neuter/derive on the C09 alphabet and products for all non-hardened edge indexes; public-only parents with every leading-zero count in X and both parities; consistent injected hash results (doubling, every leading-zero count); neuter twice; all registered versions; histories of calls and repeated calls; public parents of unregistered versions; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C11", Explore: c11, Rule: "all operation sequences up to the depth bound from public keys over {derive(i), neuter, serialize+read, read text}; hardened index space 2^31..2^32-1 enumerated in full; key ranges around the hardened boundary; public parents of unregistered versions; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C12", Explore: c12, Rule: "fault injection in HMAC-SHA512 (one consistent function per process): result halves 0, 1, n-1, n, n+1, n+2^64, 2^256-1, minus the parent key, x seeds, parents, private/public, indexes, and every step position of path and range front ends", Assum: []string{"HMAC-SHA512 as called through crypto/hmac is replaced for exactly one (key, message); a code path that never asks it is compared with the real hash instead"}},
		mc.Check{ID: "C13", Explore: c13, Rule: "all registered versions x depths x fingerprints x numbers x chain codes x payloads (boundary scalars, both-parity points): serialize, text, read back; texts with leading ones; the all-zero key; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C14", Explore: c14, Rule: "for each base key: every byte position x all 255 other values, every text position x all other byte values, every neighbouring swap, every truncation and extension, every deletion and insertion; malformed inputs of every length; texts with every one or two characters before, behind and around them, in groups with separators; serialized forms with every two bytes added; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C15", Explore: c15, Rule: "product of payload prefix (all 256) x payload body (boundary values of scalar field, coordinate field, on/off-curve) x version (all registered, neighbours) x depth x fingerprint x number, with correct checksum; every value of every byte and every pair of fingerprint and number bytes; every sibling version and side; oracle: model verdict; histories of calls; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C16", Explore: c16, Rule: "every registered version x {derive private, derive hardened, neuter, derive public} x two levels, in fresh processes (map iteration orders); every one-bit and one-byte neighbour of a registered version and cross-side versions are refused; the indexes of every registered purpose"},
		mc.Check{ID: "C17", Explore: c17, Rule: "every start depth 0..255 x {private, hardened, public}; complete derivation chains from a master key to depth 255 and one beyond through NewChildKey, Generator and KeyPathRange"},
	)
}

func fill(kind, n int) []byte {
	switch kind {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	case 2:
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i)
		}
		return b
	case 3:
		b := make([]byte, n)
		if n > 0 {
			b[n-1] = 1
		}
		return b
	}
	return detBytes(fmt.Sprintf("fill%d", n), n)
}

func masterCmp(t *mc.T, seed []byte) ref.XKey {
	in := append([]byte(nil), seed...)
	w, werr := ref.Master(seed, xprv, ref.HMAC512)
	g, err := bip32.NewMasterKey(seed)
	t.Step()
	if !bytes.Equal(in, seed) {
		t.Failf("NewMasterKey changed its seed")
	}
	if werr != nil || err != nil {
		t.Failf("master key: err=%v model=%v", err, werr)
	}
	if d := diffKey(*g, w); d != "" {
		t.Failf("NewMasterKey(%x): %s", seed, d)
	}
	return w
}

// macs lists the environments a result may have come from: the injected one if
// it was asked for just now, either one if only before (the code under test may
// remember), else the real one.
func macs(fired, before bool, inj ref.Mac) []ref.Mac {
	if fired {
		return []ref.Mac{inj}
	}
	if before {
		return []ref.Mac{inj, ref.HMAC512}
	}
	return []ref.Mac{ref.HMAC512}
}

func anyMac(t *mc.T, ms []ref.Mac, f func(m ref.Mac)) {
	var fs []func()
	for _, m := range ms {
		m := m
		fs = append(fs, func() { f(m) })
	}
	t.Any(fs...)
}

// masterInj compares the master key for a replaced hash result.
func masterInj(t *mc.T, d []byte) {
	seed, key := detBytes("injseed"+hx(d), 32), []byte("Bitcoin seed")
	var g *bip32.Key
	var err error
	fired, before := inject(key, seed, d, func() { t.Try("NewMasterKey", func() { g, err = bip32.NewMasterKey(seed) }) })
	if !fired {
		t.Outcome("injection not asked for")
	}
	t.Step()
	anyMac(t, macs(fired, before, injMac(key, seed, d)), func(m ref.Mac) {
		w, werr := ref.Master(seed, xprv, m)
		if (err != nil) != (werr != nil) {
			t.Failf("hash result %x: err=%v, model %v", d, err, werr)
		}
		if err == nil {
			if df := diffKey(*g, w); df != "" {
				t.Failf("hash result %x: %s", d, df)
			}
		}
	})
}

func c08(c *mc.C) {
	famHistories(c, "master", "hexroot")
	alikeCases(c, "master")
	max := 320
	if c.Thorough {
		max = 2048
	}
	for n := 0; n <= max; n++ {
		for k := 0; k < 5; k++ {
			n, k := n, k
			c.Case(mc.N("seed len=%d fill=%d", n, k), func(t *mc.T) {
				w := masterCmp(t, fill(k, n))
				b := w.Bytes()
				t.State(b[:])
			})
		}
	}
	for v := 0; v < 256; v++ {
		v := v
		c.Case(mc.N("seed 1 byte %02x and 16 x that byte", v), func(t *mc.T) {
			masterCmp(t, []byte{byte(v)})
			masterCmp(t, bytes.Repeat([]byte{byte(v)}, 16))
			masterCmp(t, bytes.Repeat([]byte{byte(v)}, 64))
			t.State(v)
		})
	}
	// injected hash results: every kind of half
	for _, s := range allScalars() {
		for ci, cc := range ccDense {
			s, ci, cc := s, ci, cc
			c.Case(mc.N("injected IL=%s IR=cc#%d", s.name, ci), func(t *mc.T) { masterInj(t, digest(s.v, cc)); t.State(s.name, ci) })
		}
	}
	for p := 0; p < 64; p++ {
		p := p
		c.Case(mc.N("injected byte %d, all values", p), func(t *mc.T) {
			for _, bg := range []byte{0, 1, 0xfe} {
				for v := 0; v < 256; v++ {
					d := bytes.Repeat([]byte{bg}, 64)
					d[p] = byte(v)
					masterInj(t, d)
				}
			}
			t.State("ib", p)
		})
	}
	// every byte of a seed
	for _, n := range []int{16, 32, 64} {
		for p := 0; p < n; p++ {
			n, p := n, p
			c.Case(mc.N("seed of %d bytes, byte %d, all values", n, p), func(t *mc.T) {
				for _, bg := range []int{0, 1, 4} {
					b := fill(bg, n)
					for v := 0; v < 256; v++ {
						b[p] = byte(v)
						w := masterCmp(t, b)
						wb := w.Bytes()
						t.State(wb[:])
						if k, err := util.RootKeyFromSeed(hx(b)); err != nil || diffKey(*k, w) != "" {
							t.Failf("RootKeyFromSeed(%x): %v", b, err)
						}
					}
				}
			})
		}
	}
	// the hex front end
	front := func(t *mc.T, s string, ok bool, want ref.XKey) {
		var k *bip32.Key
		var err error
		t.Try(fmt.Sprintf("RootKeyFromSeed(%q)", s), func() { k, err = util.RootKeyFromSeed(s) })
		t.Step()
		if !ok {
			t.Outcome("refused")
			if err == nil {
				t.Failf("RootKeyFromSeed(%q) accepted", s)
			}
			if _, err = util.RootKeyFromSeed(s); err == nil {
				t.Failf("RootKeyFromSeed(%q) accepted when asked again", s)
			}
			return
		}
		t.Outcome("accepted")
		if err != nil || k == nil {
			t.Failf("RootKeyFromSeed(%q) refused: %v", s, err)
		}
		if d := diffKey(*k, want); d != "" {
			t.Failf("RootKeyFromSeed(%q): %s", s, d)
		}
	}
	hexMax := 80
	if c.Thorough {
		hexMax = 300
	}
	for n := 0; n <= hexMax; n++ {
		for _, k := range []int{0, 1, 2, 4} {
			n, k := n, k
			c.Case(mc.N("hex seed bytes=%d fill=%d", n, k), func(t *mc.T) {
				b := fill(k, n)
				w, _ := ref.Master(b, xprv, ref.HMAC512)
				lo := hx(b)
				up := strings.ToUpper(lo)
				mix := []byte(lo)
				for i := 0; i < len(mix); i += 2 {
					mix[i] = up[i]
				}
				for i, s := range []string{lo, up, string(mix)} {
					front(t, s, n >= 16, w)
					front(t, s+"a", false, w)
					t.State(n, k, i)
				}
			})
		}
	}
	base := hx(detBytes("hexbase", 64))
	w, _ := ref.Master(h2b(base), xprv, ref.HMAC512)
	_ = w
	bad := []string{"g", "G", " ", "\n", "x", "/", ":", "@", "`", "\x00", "-", "é", "٣"}
	for p := 0; p <= len(base); p++ {
		for _, ch := range bad {
			p, ch := p, ch
			c.Case(mc.N("hex seed with %q at %d", ch, p), func(t *mc.T) {
				if p < len(base) {
					front(t, base[:p]+ch+base[p+1:], false, w)
				}
				front(t, base[:p]+ch+base[p:], false, w)
				front(t, base[:p]+ch+ch+base[p:], false, w)
				t.State(p, ch)
			})
		}
	}
	for _, n := range []int{15, 16, 64} {
		hexAround := func(t *mc.T, s string) {
			b, err := hex.DecodeString(s)
			if err != nil || len(b) < 16 {
				front(t, s, false, w)
				return
			}
			w, _ := ref.Master(b, xprv, ref.HMAC512)
			front(t, s, true, w)
		}
		around(c, fmt.Sprintf("hex seed of %d bytes", n), hx(detBytes("hexaround", n)), aroundToks, hexAround)
		grouped(c, fmt.Sprintf("hex seed of %d bytes", n), hx(detBytes("hexaround", n)), "", hexAround)
	}
	for _, s := range []string{"0x" + base, "0X" + base, base + "0x", " " + base, base + "\n", "\ufeff" + base} {
		s := s
		c.Case(mc.N("hex seed decorated %q", s[:4]+s[len(s)-3:]), func(t *mc.T) { front(t, s, false, w); t.State(s) })
	}
}

// special scalars whose public point has leading zero bytes (x1..: in X, y1..: in Y)
var specialScalars = []named{
	{"x1", bi(805306389)}, {"x2", bi(1342187706)}, {"x3", bi(538259868)}, {"y1", bi(268435476)}, {"y2", bi(536877594)},
	{"x1y1", bi(268438339)}, {"x2y1", bi(271716313)}, {"x1y2", bi(808103025)},
	{"x11", new(big.Int).Add(new(big.Int).Rsh(ref.N, 1), bi(1))}, // 1/2 mod n
}

var ccAlphabet = [][32]byte{{}, det32("cc1"), func() (o [32]byte) {
	for i := range o {
		o[i] = 0xff
	}
	return
}(), func() (o [32]byte) { o[31] = 1; return }()}

func allScalars() []named { return append(append(scalars(), specialScalars...), cornerScalars...) }

func init() { // the special scalars are what they say
	for _, s := range specialScalars {
		p := ref.BaseMult(s.v)
		z := func(v *big.Int) int { return 32 - (v.BitLen()+7)/8 }
		want := map[string][2]int{"x1": {1, 0}, "x2": {2, 0}, "x3": {3, 0}, "y1": {0, 1}, "y2": {0, 2}, "x1y1": {1, 1}, "x2y1": {2, 1}, "x1y2": {1, 2}, "x11": {11, 0}}[s.name]
		if z(p.X) != want[0] || z(p.Y) != want[1] {
			panic("special scalar " + s.name)
		}
	}
}

func c09(c *mc.C) {
	famHistories(c, "child")
	alikeCases(c, "child")
	for _, s := range allScalars() {
		for ci, cc := range ccAlphabet {
			for _, idx := range edgeIdx {
				s, cc, ci, idx := s, cc, ci, idx
				c.Case(mc.N("scalar=%s cc=%d idx=%d", s.name, ci, idx), func(t *mc.T) {
					w, err := childRef(t, prvKey(xprv, s.v, cc), idx)
					if err != nil {
						t.Failf("model: %v", err)
					}
					b := w.Bytes()
					t.State(b[:])
				})
			}
		}
	}
	// all 2^k and 2^k-1 indexes
	for k := uint(0); k < 32; k++ {
		k := k
		c.Case(mc.N("index bit %d", k), func(t *mc.T) {
			p := prvKey(xprv, new(big.Int).SetBytes(detBytes("idxparent", 32)), det32("idxcc"))
			for _, i := range []uint32{1 << k, 1<<k - 1, 1<<k + 1, ^uint32(1 << k), hard | 1<<k} {
				if w, err := childRef(t, p, i); err == nil {
					b := w.Bytes()
					t.State(b[:])
				}
			}
		})
	}
	for pi, p := range pairs {
		for _, s := range []named{{"1", bi(1)}, {"det", new(big.Int).SetBytes(detBytes("v", 32))}, {"n-1", new(big.Int).Sub(ref.N, bi(1))}} {
			for _, d := range []byte{0, 1, 127, 128, 253, 254} {
				p, s, d := p, s, d
				c.Case(mc.N("version#%d %08x scalar=%s depth=%d", pi, p.prv, s.name, d), func(t *mc.T) {
					k := prvKey(p.prv, s.v, det32("vcc"))
					k.Depth = d
					if d > 0 {
						copy(k.FP[:], detBytes("fp", 4))
						k.CN = uint32(d) * 0x01010101
					}
					for _, i := range []uint32{0, 1, hard, hard + 44, 0xffffffff} {
						if w, err := childRef(t, k, i); err == nil {
							b := w.Bytes()
							t.State(b[:])
						}
					}
				})
			}
		}
	}
	// the purposes and coin types wallets use, at the depths they use them
	for i, x := range purposeIdx {
		i, x := i, x
		c.Case(mc.N("index %d at wallet depths", x), func(t *mc.T) {
			for pi, p := range pairs {
				if p.prv != xprv && !c.Thorough && (pi+i)%4 != 0 {
					continue
				}
				k := prvKey(p.prv, new(big.Int).SetBytes(detBytes("v", 32)), det32("vcc"))
				for d := byte(0); d < 5; d++ {
					k.Depth = d
					childRef(t, k, x)
					t.State(p.prv, d, x)
					k.CN = hard + 44
				}
			}
		})
	}
	// key trees, breadth first
	depth, alpha := 3, []uint32{0, 1, hard - 1, hard, hard + 1, 0xffffffff}
	if c.Thorough {
		depth = 5
	}
	var walk func(seed int, path []uint32)
	walk = func(seed int, path []uint32) {
		if len(path) == depth {
			path = append([]uint32(nil), path...)
			c.Case(mc.N("tree seed=%d path=%v", seed, path), func(t *mc.T) {
				k, err := ref.Master(detBytes(fmt.Sprintf("tree%d", seed), 16+seed*16), xprv, ref.HMAC512)
				for _, i := range path {
					if err != nil {
						t.Failf("model: %v", err)
					}
					k, err = childRef(t, k, i)
					b := k.Bytes()
					t.State(b[:])
				}
			})
			return
		}
		for _, a := range alpha {
			walk(seed, append(path, a))
		}
	}
	for s := 0; s < 4; s++ {
		walk(s, nil)
	}
	// ordered pairs of parents that agree in all but one field, derived back to back
	base := prvKey(xprv, new(big.Int).SetBytes(detBytes("col", 32)), det32("colcc"))
	base.Depth, base.CN = 3, 7
	copy(base.FP[:], "abcd")
	vars := collisions(base)
	for a := range vars {
		for b := range vars {
			a, b := a, b
			c.Case(mc.N("back to back %s then %s", vars[a].name, vars[b].name), func(t *mc.T) {
				for _, i := range []uint32{5, hard + 5} {
					childRef(t, vars[a].k, i)
					childRef(t, vars[b].k, i)
					childRef(t, vars[a].k, i+1)
					childRef(t, vars[b].k, i^hard)
					childRef(t, vars[a].k, i)
					t.State(a, b, i)
				}
			})
		}
	}
	keyProducts(c, allScalars(), func(t *mc.T, k ref.XKey) { childRef(t, k, anyOf(k, 0)); childRef(t, k, anyOf(k, 1)) })
	keySweep(c, func(t *mc.T, k ref.XKey) { childRef(t, k, softOf(k, 0)); childRef(t, k, softOf(k, 1)|hard) })
	span := uint32(1024)
	if c.Thorough {
		span = 1 << 18
	}
	for b := uint32(0); b < span; b += 64 {
		b := b
		c.Case(mc.N("indexes %d.. from both ends of both halves", b), func(t *mc.T) {
			k := denseBases()[1]
			for i := b; i < b+64 && !t.Expired(); i++ {
				for _, x := range []uint32{i, hard - 1 - i, hard + i, 0xffffffff - i} {
					childRef(t, k, x)
					t.State("i", x)
				}
			}
		})
	}
	for by := uint(0); by < 4; by++ {
		by := by
		c.Case(mc.N("index byte %d, all values", by), func(t *mc.T) {
			for v := uint32(0); v < 256; v++ {
				for _, bg := range []uint32{0, 0xffffffff, 0x12345678, 0x92345678} {
					childRef(t, denseBases()[0], bg&^(0xff<<(8*by))|v<<(8*by))
				}
			}
			t.State("ib", by)
		})
	}
	// injected hash results
	par := prvKey(xprv, new(big.Int).SetBytes(detBytes("inj", 32)), det32("injcc"))
	for _, idx := range []uint32{0, 9, hard - 1, hard, hard + 9, 0xffffffff} {
		for _, tg := range allScalars() {
			for _, mode := range []string{"child", "il", "cc"} {
				idx, tg, mode := idx, tg, mode
				c.Case(mc.N("injected %s=%s idx=%d", mode, tg.name, idx), func(t *mc.T) {
					injDerive(t, par, idx, tg.v, mode)
					t.State(idx, tg.name, mode)
				})
			}
		}
	}
}

type namedKey struct {
	name string
	k    ref.XKey
}

// collisions varies one field of the key at a time.
func collisions(base ref.XKey) []namedKey {
	o := []namedKey{{"base", base}}
	add := func(n string, f func(k *ref.XKey)) {
		k := base
		f(&k)
		o = append(o, namedKey{n, k})
	}
	add("cc", func(k *ref.XKey) { k.CC = det32("other") })
	add("cc-last", func(k *ref.XKey) { k.CC[31] ^= 1 })
	add("cc-first", func(k *ref.XKey) { k.CC[0] ^= 1 })
	add("depth", func(k *ref.XKey) { k.Depth++ })
	add("fp", func(k *ref.XKey) { k.FP[3] ^= 1 })
	add("cn", func(k *ref.XKey) { k.CN ^= 1 })
	if base.Private() {
		add("ver", func(k *ref.XKey) { k.Ver = 0x04b2430c })
		add("key", func(k *ref.XKey) {
			b := ref.Bytes32(new(big.Int).SetBytes(detBytes("colkey2", 32)))
			copy(k.Key[1:], b[:])
		})
		add("key+1", func(k *ref.XKey) { b := ref.Bytes32(new(big.Int).Add(k.Scalar(), bi(1))); copy(k.Key[1:], b[:]) })
		add("neg-key", func(k *ref.XKey) { b := ref.Bytes32(new(big.Int).Sub(ref.N, k.Scalar())); copy(k.Key[1:], b[:]) })
	} else {
		add("ver", func(k *ref.XKey) { k.Ver = 0x04b24746 })
		add("parity", func(k *ref.XKey) { k.Key[0] ^= 1 })
		add("key", func(k *ref.XKey) { k.Key = ref.Compress(ref.BaseMult(bi(77))) })
	}
	return o
}

// injDerive derives with HMAC replaced so that the child key (or IL, or the
// chain code) takes the target value.
func injDerive(t *mc.T, par ref.XKey, idx uint32, target *big.Int, mode string) {
	par.CC = unique(mode, target, idx, par)
	msg := par.ChildData(idx)
	il := new(big.Int).SetBytes(detBytes("il", 32))
	ir := det32("ir")
	switch mode {
	case "child":
		il.Sub(target, par.Scalar())
		il.Mod(il, ref.N)
	case "il":
		il.Set(target)
	case "cc":
		ir = ref.Bytes32(target)
	}
	d := digest(il, ir)
	for _, k := range []ref.XKey{par, par.Neuter(pubOf[par.Ver])} {
		if !k.Private() && idx >= hard {
			continue
		}
		inj := injMac(k.CC[:], msg, d)
		if _, werr := k.Child(idx, inj); werr == ref.ErrUnusable {
			t.Outcome("unusable result, see C12")
			continue
		}
		var g bip32.Key
		var err error
		fired, before := inject(k.CC[:], msg, d, func() { g, err = child(t, k, idx) })
		t.Step()
		if !fired {
			t.Outcome("injection not asked for")
		} else {
			t.Outcome("injected")
		}
		anyMac(t, macs(fired, before, inj), func(m ref.Mac) {
			w, werr := k.Child(idx, m)
			if (werr != nil) != (err != nil) {
				t.Failf("injected %s: err=%v, model says %v (IL=%x)", mode, err, werr, ref.Bytes32(il))
			}
			if err == nil {
				if df := diffKey(g, w); df != "" {
					t.Failf("injected %s: %s (IL=%x, private=%v)", mode, df, ref.Bytes32(il), k.Private())
				}
			}
		})
	}
}

func square(t *mc.T, k ref.XKey, idx uint32) {
	pv := pubOf[k.Ver]
	kk := toKey(k)
	c, err := kk.NewChildKey(idx)
	if err != nil {
		t.Failf("private derivation of index %d failed: %v", idx, err)
	}
	cp := c.PublicKeyExtended()
	p := kk.PublicKeyExtended()
	if [78]byte(kk) != k.Bytes() {
		t.Failf("the key changed while taking its public key")
	}
	pc, err := p.NewChildKey(idx)
	if err != nil {
		t.Failf("public derivation of index %d failed: %v", idx, err)
	}
	t.Step()
	t.Step()
	if cp != pc {
		t.Failf("N(CKDpriv(%s,%d)) != CKDpub(N(k),%d): %s", k.B58(), idx, idx, diffKey(cp, fromKey(pc)))
	}
	if d := diffKey(p, k.Neuter(pv)); d != "" {
		t.Failf("PublicKeyExtended of %s: %s", k.B58(), d)
	}
	if p2 := p.PublicKeyExtended(); p2 != p {
		t.Failf("PublicKeyExtended twice differs: %s", diffKey(p2, fromKey(p)))
	}
	if c2 := cp.PublicKeyExtended(); c2 != cp {
		t.Failf("PublicKeyExtended of a public child differs: %s", diffKey(c2, fromKey(cp)))
	}
	w, err := k.Child(idx, ref.HMAC512)
	if err != nil {
		t.Failf("model: %v", err)
	}
	if d := diffKey(pc, w.Neuter(pv)); d != "" {
		t.Failf("public child of %s at %d: %s", k.B58(), idx, d)
	}
	b := w.Neuter(pv).Bytes()
	t.State(b[:])
}

func soft() []uint32 {
	var o []uint32
	for _, i := range edgeIdx {
		if i < hard {
			o = append(o, i)
		}
	}
	return o
}

// points with j leading zero bytes in X (both parities) or in Y.
func zeroPoints() []struct {
	name string
	p    ref.Point
} {
	var o []struct {
		name string
		p    ref.Point
	}
	for j := 0; j < 32; j++ {
		b := detBytes(fmt.Sprintf("zx%d", j), 32)
		for i := 0; i < j; i++ {
			b[i] = 0
		}
		if b[j] == 0 {
			b[j] = 1
		}
		x := new(big.Int).SetBytes(b)
		x.Mod(x, ref.P)
		for k := 0; ; k++ {
			if p, ok := ref.LiftX(x, 0); ok {
				for q := 0; q < 2; q++ {
					o = append(o, struct {
						name string
						p    ref.Point
					}{fmt.Sprintf("x%d/%d", j, q), p})
					p = ref.Neg(p)
				}
				break
			}
			x.Add(x, bi(1))
		}
		y := new(big.Int).SetBytes(b)
		y.Mod(y, ref.P)
		for {
			if p, ok := ref.LiftY(y); ok {
				o = append(o, struct {
					name string
					p    ref.Point
				}{fmt.Sprintf("y%d", j), p})
				break
			}
			y.Add(y, bi(1))
		}
	}
	return o
}

func c10(c *mc.C) {
	famHistories(c, "child", "neuter")
	alikeCases(c, "public child")
	ccs := ccAlphabet
	if !c.Thorough {
		ccs = ccs[:2]
	}
	for _, s := range allScalars() {
		for ci, cc := range ccs {
			for _, idx := range soft() {
				s, cc, ci, idx := s, cc, ci, idx
				c.Case(mc.N("scalar=%s cc=%d idx=%d", s.name, ci, idx), func(t *mc.T) { square(t, prvKey(xprv, s.v, cc), idx) })
			}
		}
	}
	for pi, p := range pairs {
		for _, d := range []byte{0, 1, 254} {
			p, d := p, d
			c.Case(mc.N("version#%d %08x depth=%d", pi, p.prv, d), func(t *mc.T) {
				k := prvKey(p.prv, new(big.Int).SetBytes(detBytes("v10", 32)), det32("v10cc"))
				k.Depth = d
				if d > 0 {
					copy(k.FP[:], "wxyz")
					k.CN = 0x80000000 + uint32(d)
				}
				for _, i := range []uint32{0, 1, hard - 1} {
					square(t, k, i)
				}
			})
		}
	}
	unregisteredPublic(c)
	for _, zp := range zeroPoints() {
		for _, idx := range []uint32{0, 1, hard - 1} {
			zp, idx := zp, idx
			c.Case(mc.N("public parent %s idx=%d", zp.name, idx), func(t *mc.T) {
				k := ref.XKey{Ver: xpub, Depth: 1, CN: 1, CC: det32("zpcc"), Key: ref.Compress(zp.p)}
				w, err := childRef(t, k, idx)
				if err != nil {
					t.Failf("model: %v", err)
				}
				b := w.Bytes()
				t.State(b[:])
			})
		}
	}
	keyProducts(c, allScalars(), func(t *mc.T, k ref.XKey) {
		if k.Depth < 255 {
			square(t, k, softOf(k, 0))
		}
	})
	keySweep(c, func(t *mc.T, k ref.XKey) {
		if k.Depth < 255 {
			square(t, k, softOf(k, 0))
		}
	})
	span := uint32(512)
	if c.Thorough {
		span = 1 << 17
	}
	for b := uint32(0); b < span; b += 64 {
		b := b
		c.Case(mc.N("indexes %d.. and 2^31-1-%d..", b, b), func(t *mc.T) {
			for i := b; i < b+64 && !t.Expired(); i++ {
				square(t, denseBases()[1], i)
				square(t, denseBases()[1], hard-1-i)
			}
		})
	}
	// injected: child keys with every leading-zero count, doubling (IL = parent key)
	par := prvKey(xprv, new(big.Int).SetBytes(detBytes("inj10", 32)), det32("inj10cc"))
	for _, idx := range []uint32{0, 5, hard - 1} {
		for _, tg := range append(allScalars(), named{"kpar", par.Scalar()}, named{"2kpar", new(big.Int).Mod(new(big.Int).Lsh(par.Scalar(), 1), ref.N)}) {
			for _, mode := range []string{"child", "il", "cc"} {
				idx, tg, mode := idx, tg, mode
				c.Case(mc.N("injected %s=%s idx=%d", mode, tg.name, idx), func(t *mc.T) {
					injDerive(t, par, idx, tg.v, mode)
					t.State(idx, tg.name, mode)
				})
			}
		}
	}
	// back to back on colliding parents, private and public
	base := prvKey(xprv, new(big.Int).SetBytes(detBytes("col10", 32)), det32("col10cc"))
	base.Depth, base.CN = 2, 1
	copy(base.FP[:], "qrst")
	vars := append(collisions(base), collisions(base.Neuter(xpub))...)
	for a := range vars {
		for b := range vars {
			a, b := a, b
			c.Case(mc.N("back to back %d/%s then %d/%s", a, vars[a].name, b, vars[b].name), func(t *mc.T) {
				for _, k := range []ref.XKey{vars[a].k, vars[b].k, vars[a].k} {
					kk := toKey(k)
					n := kk.PublicKeyExtended()
					pv := k.Ver
					if k.Private() {
						pv = pubOf[k.Ver]
					}
					t.Step()
					if d := diffKey(n, k.Neuter(pv)); d != "" {
						t.Failf("PublicKeyExtended: %s", d)
					}
					childRef(t, k, 3)
				}
				t.State(a, b)
			})
		}
	}
}

func c11(c *mc.C) {
	famHistories(c, "keyhex", "neuter", "child")
	alikeCases(c, "secret")
	// operation sequences from public keys
	roots := []namedKey{}
	for i, p := range pairs {
		if i < 3 || c.Thorough {
			roots = append(roots, namedKey{fmt.Sprintf("v%08x", p.pub), prvKey(p.prv, new(big.Int).SetBytes(detBytes("c11", 32)), det32("c11cc")).Neuter(p.pub)})
		}
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	ops := []string{"d0", "d1", "dmax", "neuter", "ser", "b58"}
	var walk func(r namedKey, seq []string)
	walk = func(r namedKey, seq []string) {
		if len(seq) == depth {
			seq = append([]string(nil), seq...)
			c.Case(mc.N("root=%s ops=%s", r.name, strings.Join(seq, ",")), func(t *mc.T) {
				k := toKey(r.k)
				publicOnly(t, k)
				for _, o := range seq {
					var err error
					switch o {
					case "d0":
						k, err = k.NewChildKey(0)
					case "d1":
						k, err = k.NewChildKey(1)
					case "dmax":
						k, err = k.NewChildKey(hard - 1)
					case "neuter":
						k = k.PublicKeyExtended()
					case "ser":
						var b []byte
						if b, err = k.Serialize(); err == nil {
							k, err = bip32.Deserialize(b)
						}
					case "b58":
						k, err = bip32.B58Deserialize(k.B58Serialize())
					}
					t.Step()
					if err != nil {
						t.Failf("%s: %v", o, err)
					}
					publicOnly(t, k)
					t.State(k[:])
				}
			})
			return
		}
		for _, o := range ops {
			walk(r, append(seq, o))
		}
	}
	for _, r := range roots {
		walk(r, nil)
	}
	// public parts of private keys
	for _, s := range allScalars() {
		s := s
		c.Case(mc.N("neuter scalar=%s", s.name), func(t *mc.T) {
			for _, p := range pairs {
				k := toKey(prvKey(p.prv, s.v, det32("n11")))
				n := k.PublicKeyExtended()
				publicOnly(t, n)
				t.Step()
				sb := ref.Bytes32(s.v)
				if s.v.BitLen() > 64 && bytes.Contains(n[:], bytes.TrimLeft(sb[:], "\x00")) {
					t.Failf("the private key bytes appear in the public extended key")
				}
				if g := n.PublicKeyHex(); g != hx(func() []byte { c := ref.Compress(ref.BaseMult(s.v)); return c[:] }()) || k.PublicKeyHex() != g {
					t.Failf("PublicKeyHex %s / %s", g, k.PublicKeyHex())
				}
				if k.PrivateKeyHex() != hx(sb[:]) {
					t.Failf("PrivateKeyHex of the private key: %s", k.PrivateKeyHex())
				}
				t.State(s.name, p.prv)
			}
		})
	}
	keyProducts(c, allScalars(), func(t *mc.T, k ref.XKey) {
		t.Step()
		kk := toKey(k)
		n := kk.PublicKeyExtended()
		if d := diffKey(n, k.Neuter(pubOf[k.Ver])); d != "" {
			t.Failf("PublicKeyExtended of %s: %s", k.B58(), d)
		}
		publicOnly(t, n)
	})
	keySweep(c, func(t *mc.T, k ref.XKey) { t.Step(); publicOnly(t, toKey(k.Neuter(pubOf[k.Ver]))) })
	unregisteredPublic(c)
	// hardened index space in full
	k := toKey(prvKey(xprv, new(big.Int).SetBytes(detBytes("c11h", 32)), det32("c11hcc")).Neuter(xpub))
	k2 := k
	k2[4] = 255
	const blk = 1 << 22
	for b := uint64(0); b < 1<<31; b += blk {
		b := b
		c.Case(mc.N("hardened indexes %d..%d", hard+uint32(b), uint64(hard)+b+blk-1), func(t *mc.T) {
			for i := uint64(0); i < blk; i++ {
				idx := uint32(uint64(hard) + b + i)
				if ck, err := k.NewChildKey(idx); err == nil {
					t.Failf("hardened child %d of a public key: %x", idx, ck)
				}
			}
			t.Step()
			t.State(b)
			t.Outcome("refused block")
		})
	}
	// ranges
	for _, start := range []uint32{0, 1, hard - 3, hard - 2, hard - 1, hard, hard + 1, 0xfffffffd} {
		for n := uint32(1); n <= 3; n++ {
			if start+n < start {
				continue
			}
			start, n := start, n
			c.Case(mc.N("public range %d+%d", start, n), func(t *mc.T) {
				r := util.KeyPathRange{StartIndex: start, EndIndex: start + n, KeyPath: util.KeyPath{Path: "m", Key: k}}
				err := r.GenerateRange()
				t.Step()
				t.State(start, n)
				if start+n > hard {
					t.Outcome("refused")
					if err == nil || len(r.KeyPaths) != 0 {
						t.Failf("range with hardened index over a public key: err=%v entries=%d", err, len(r.KeyPaths))
					}
					return
				}
				t.Outcome("ok")
				if err != nil || len(r.KeyPaths) != int(n) {
					t.Failf("public range refused: %v", err)
				}
				for _, e := range r.KeyPaths {
					publicOnly(t, e.Key)
				}
			})
		}
	}
}

func publicOnly(t *mc.T, k bip32.Key) {
	if k.IsPrivate() {
		t.Failf("public key reports itself private: %x", k)
	}
	if h := k.PrivateKeyHex(); h != "" {
		t.Failf("public key yields private key hex %s", h)
	}
	if k[45] != 2 && k[45] != 3 {
		t.Failf("payload of a public key: %x", k[45:])
	}
	if _, ok := pubOf[k.GetVersion()]; ok {
		t.Failf("public payload under a private version: %x", k)
	}
	for _, i := range []uint32{hard, hard + 1, hard, hard + 44, 1<<32 - 1, 1<<32 - 1} {
		if c, err := k.NewChildKey(i); err == nil {
			t.Failf("hardened child %d of a public key: %x", i, c)
		}
	}
}

// unregisteredPublic: under a version nobody registered the public key is the
// same, whatever version it gets.
func unregisteredPublic(c *mc.C) {
	for _, v := range []uint32{0, 1, 0x01020304, 0x0488ade5, 0x0488b21f, 0x12345678, 0x80000000, 0xe4ad8804, 0xffffffff} {
		for _, s := range []named{{"1", bi(1)}, {"n-1", new(big.Int).Sub(ref.N, bi(1))}, {"det", new(big.Int).SetBytes(detBytes("unreg", 32))}, {"short", new(big.Int).SetBytes(detBytes("unreg", 20))}} {
			v, s := v, s
			c.Case(mc.N("unregistered version %08x scalar=%s", v, s.name), func(t *mc.T) {
				for _, d := range []byte{0, 1, 2, 127, 128, 255} {
					for _, f := range [][2]uint32{{0, 0}, {0x61626364, 0}, {0, 7}, {0x01000000, hard + 1}} {
						k := prvKey(v, s.v, det32("unregcc"))
						k.Depth, k.CN = d, f[1]
						binary.BigEndian.PutUint32(k.FP[:], f[0])
						kk := toKey(k)
						n := kk.PublicKeyExtended()
						w := k.Neuter(n.GetVersion())
						t.Step()
						if x := diffKey(n, w); x != "" {
							t.Failf("public key of %x: %s", kk, x)
						}
						if n.IsPrivate() || n.PrivateKeyHex() != "" || kk.PublicKeyHex() != n.PublicKeyHex() {
							t.Failf("public key of %x: private=%v hex %q, %s, %s", kk, n.IsPrivate(), n.PrivateKeyHex(), kk.PublicKeyHex(), n.PublicKeyHex())
						}
						if m := n.PublicKeyExtended(); m != n {
							t.Failf("public key of a public key of %x: %x, %x", kk, n, m)
						}
						t.State(v, s.name, d, f)
					}
				}
			})
		}
	}
}

func faultILs(kpar *big.Int) []named {
	max := new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(1))
	o := []named{{"0", bi(0)}, {"1", bi(1)}, {"n-1", new(big.Int).Sub(ref.N, bi(1))}, {"n", ref.N}, {"n+1", new(big.Int).Add(ref.N, bi(1))},
		{"n+2^64", new(big.Int).Add(ref.N, new(big.Int).Lsh(bi(1), 64))}, {"p", ref.P}, {"max-1", new(big.Int).Sub(max, bi(1))}, {"max", max}}
	if kpar != nil {
		o = append(o, named{"-k", new(big.Int).Sub(ref.N, kpar)}, named{"k", kpar},
			named{"-k+1", new(big.Int).Mod(new(big.Int).Sub(bi(1), kpar), ref.N)}, named{"-k-1", new(big.Int).Mod(new(big.Int).Sub(bi(-1), kpar), ref.N)})
		if v := new(big.Int).Sub(new(big.Int).Lsh(ref.N, 1), kpar); v.BitLen() <= 256 {
			o = append(o, named{"2n-k", v}) // reduces to -k but is itself out of range
		}
		if v := new(big.Int).Add(ref.N, kpar); v.BitLen() <= 256 {
			o = append(o, named{"n+k", v})
		}
	}
	return o
}

func c12(c *mc.C) {
	irs := []struct {
		n string
		v [32]byte
	}{{"zero", [32]byte{}}, {"det", det32("ir12")}}
	for si, seed := range [][]byte{detBytes("s12", 16), detBytes("s12", 64), make([]byte, 16), detBytes("s12", 200)} {
		for _, il := range faultILs(nil) {
			for _, ir := range irs {
				si, seed, il, ir := si, seed, il, ir
				c.Case(mc.N("master seed#%d IL=%s IR=%s", si, il.name, ir.n), func(t *mc.T) {
					d := digest(il.v, ir.v)
					key := []byte("Bitcoin seed")
					seed := append([]byte(nil), seed...)
					own := unique(si, il.name, ir.n)
					copy(seed[len(seed)-12:], own[:])
					for _, fe := range []string{"NewMasterKey", "RootKeyFromSeed"} {
						var k *bip32.Key
						var err error
						fired, before := inject(key, seed, d, func() {
							t.Try(fe, func() {
								if fe == "NewMasterKey" {
									k, err = bip32.NewMasterKey(seed)
								} else {
									k, err = util.RootKeyFromSeed(hx(seed))
								}
							})
						})
						t.Step()
						t.Outcome(fmt.Sprintf("master error=%v injected=%v", err != nil, fired))
						t.State(fe, si, il.name, ir.n)
						anyMac(t, macs(fired, before, injMac(key, seed, d)), func(m ref.Mac) {
							w, werr := ref.Master(seed, xprv, m)
							if (err != nil) != (werr != nil) {
								t.Failf("%s with IL=%s: err=%v, model %v", fe, il.name, err, werr)
							}
							if err == nil {
								if df := diffKey(*k, w); df != "" {
									t.Failf("%s with IL=%s: %s", fe, il.name, df)
								}
							} else if k != nil && k.IsValid() {
								t.Failf("%s with IL=%s returned a usable key beside its error", fe, il.name)
							}
						})
					}
				})
			}
		}
	}
	var parents []named
	for i, s := range allScalars() {
		if c.Thorough || i%4 == 0 || i < 8 {
			parents = append(parents, s)
		}
	}
	for _, s := range parents {
		par := prvKey(xprv, s.v, det32("c12cc"))
		for _, il := range faultILs(par.Scalar()) {
			for _, ir := range irs {
				s, il, ir := s, il, ir
				c.Case(mc.N("child of %s IL=%s IR=%s", s.name, il.name, ir.n), func(t *mc.T) {
					for _, idx := range []uint32{0, 1, hard - 1, hard, 0xffffffff} {
						injFault(t, par, idx, digest(il.v, ir.v))
						t.State(s.name, il.name, ir.n, idx)
					}
				})
			}
		}
	}
	// path front end: fault at every step position
	paths := [][]uint32{{0}, {hard}, {hard + 44, hard, hard, 0, 0}, {0, 1, 2, 3}}
	for pi, path := range paths {
		for pos := range path {
			for il := 0; il < 11; il++ {
				pi, path, pos, il := pi, path, pos, il
				c.Case(mc.N("path#%d fault#%d at step %d", pi, il, pos), func(t *mc.T) {
					root, _ := ref.Master(detBytes(fmt.Sprint("c12root", pi, pos, il), 32), xprv, ref.HMAC512)
					k := root
					for _, i := range path[:pos] {
						k, _ = k.Child(i, ref.HMAC512)
					}
					ils := faultILs(k.Scalar())
					if il >= len(ils) {
						return
					}
					d := digest(ils[il].v, det32("irp"))
					msg := k.ChildData(path[pos])
					var g util.Generator
					g.SetRootKey(toKey(root))
					var res []util.KeyPath
					var err error
					fired, before := inject(k.CC[:], msg, d, func() {
						t.Try("DeriveBIP32Result", func() { res, err = g.DeriveBIP32Result(bip32.Path(ref.Label("m", path))) })
					})
					t.Step()
					anyMac(t, macs(fired, before, injMac(k.CC[:], msg, d)), func(m ref.Mac) { checkPathResult(t, root, path, m, res, err) })
					t.State(pi, pos, il)
				})
			}
		}
	}
	// range front end: fault at every position, private and public
	for _, pub := range []bool{false, true} {
		for _, start := range []uint32{0, 7, hard} {
			if pub && start >= hard {
				continue
			}
			for pos := uint32(0); pos < 4; pos++ {
				for il := 0; il < 11; il++ {
					pub, start, pos, il := pub, start, pos, il
					c.Case(mc.N("range public=%v start=%d fault#%d at %d", pub, start, il, pos), func(t *mc.T) {
						base := prvKey(xprv, new(big.Int).SetBytes(detBytes("rng12", 32)), unique("rng12", pub, start, pos, il))
						ils := faultILs(base.Scalar())
						if il >= len(ils) {
							return
						}
						d := digest(ils[il].v, det32("irr"))
						msg := base.ChildData(start + pos)
						k := base
						if pub {
							k = base.Neuter(xpub)
						}
						old := []util.KeyPath{{Path: "m/9", Key: toKey(base)}}
						r := util.KeyPathRange{StartIndex: start, EndIndex: start + 4, KeyPath: util.KeyPath{Path: "m", Key: toKey(k)}, KeyPaths: old}
						var err error
						fired, before := inject(k.CC[:], msg, d, func() { t.Try("GenerateRange", func() { err = r.GenerateRange() }) })
						t.Step()
						anyMac(t, macs(fired, before, injMac(k.CC[:], msg, d)), func(m ref.Mac) { checkRange(t, k, "m", start, start+4, m, old, r.KeyPaths, err) })
						t.State(pub, start, pos, il)
					})
				}
			}
		}
	}
}

func injFault(t *mc.T, par ref.XKey, idx uint32, d []byte) {
	par.CC = unique(par.Key, idx, d)
	msg := par.ChildData(idx)
	var verdict [2]bool
	for n, k := range []ref.XKey{par, par.Neuter(pubOf[par.Ver])} {
		if !k.Private() && idx >= hard {
			verdict[1] = verdict[0]
			continue
		}
		var g bip32.Key
		var err error
		fired, before := inject(k.CC[:], msg, d, func() { t.Try("NewChildKey", func() { g, err = child(t, k, idx) }) })
		t.Step()
		t.Outcome(fmt.Sprintf("child error=%v injected=%v private=%v", err != nil, fired, k.Private()))
		anyMac(t, macs(fired, before, injMac(k.CC[:], msg, d)), func(m ref.Mac) {
			w, werr := k.Child(idx, m)
			if (err != nil) != (werr != nil) {
				t.Failf("hash result %x, index %d, private=%v: err=%v, model: %v", d[:32], idx, k.Private(), err, werr)
			}
			if err == nil {
				if df := diffKey(g, w); df != "" {
					t.Failf("hash result %x, index %d, private=%v: %s", d[:32], idx, k.Private(), df)
				}
			}
		})
		verdict[n] = err == nil
	}
	if verdict[0] != verdict[1] {
		t.Failf("private and public derivation disagree on hash result %x", d[:32])
	}
}

// checkPathResult compares a path derivation with the model.
func checkPathResult(t *mc.T, root ref.XKey, path []uint32, mac ref.Mac, res []util.KeyPath, err error) {
	want := []ref.XKey{root}
	var werr error
	k := root
	for _, i := range path {
		if k, werr = k.Child(i, mac); werr != nil {
			break
		}
		want = append(want, k)
	}
	if werr != nil {
		t.Outcome("path refused")
		if err == nil {
			t.Failf("path derivation succeeded, model says: %v", werr)
		}
		if len(res) != 0 {
			t.Failf("path derivation returned %d entries beside its error", len(res))
		}
		return
	}
	t.Outcome("path derived")
	if err != nil {
		t.Failf("path derivation failed: %v", err)
	}
	if len(res) != len(want) {
		t.Failf("path derivation gave %d entries, want %d", len(res), len(want))
	}
	for i := range want {
		if d := diffKey(res[i].Key, want[i]); d != "" {
			t.Failf("entry %d: %s", i, d)
		}
		if l := ref.Label("m", path[:i]); string(res[i].Path) != l {
			t.Failf("entry %d is labelled %q, want %q", i, res[i].Path, l)
		}
	}
}

// checkRange compares a generated range with the model.
func checkRange(t *mc.T, base ref.XKey, path string, start, end uint32, mac ref.Mac, old, got []util.KeyPath, err error) {
	var want []ref.XKey
	var werr error
	if start >= end {
		werr = ref.ErrSize
	}
	for i := start; i < end && werr == nil; i++ {
		var k ref.XKey
		k, werr = base.Child(i, mac)
		want = append(want, k)
	}
	if werr != nil {
		t.Outcome("range refused")
		if err == nil {
			t.Failf("range [%d,%d) succeeded, model says: %v", start, end, werr)
		}
		if !sameKPs(got, old) {
			t.Failf("failed range replaced the previous entries")
		}
		return
	}
	t.Outcome("range generated")
	if err != nil {
		t.Failf("range [%d,%d) failed: %v", start, end, err)
	}
	if len(got) != len(want) {
		t.Failf("range [%d,%d) has %d entries", start, end, len(got))
	}
	for i := range want {
		if d := diffKey(got[i].Key, want[i]); d != "" {
			t.Failf("range [%d,%d) entry %d: %s", start, end, i, d)
		}
		if l := ref.Strip(path) + "/" + ref.Comp(start+uint32(i)); string(got[i].Path) != l {
			t.Failf("range [%d,%d) entry %d is labelled %q, want %q", start, end, i, got[i].Path, l)
		}
	}
}

func sameKPs(a, b []util.KeyPath) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func c17(c *mc.C) {
	famHistories(c, "child", "derive")
	for d := 0; d < 256; d++ {
		d := d
		c.Case(mc.N("one step from depth %d", d), func(t *mc.T) {
			k := prvKey(xprv, new(big.Int).SetBytes(detBytes("c17", 32)), det32("c17cc"))
			k.Depth = byte(d)
			if d > 0 {
				k.CN = 5
				copy(k.FP[:], "ijkl")
			}
			for _, kk := range []ref.XKey{k, k.Neuter(xpub)} {
				for _, i := range []uint32{0, hard - 1, hard, 0xffffffff} {
					if !kk.Private() && i >= hard {
						continue
					}
					childRef(t, kk, i)
					for _, n := range []uint32{1, 2} {
						if i+n < i {
							continue
						}
						if !kk.Private() && i+n > hard {
							continue
						}
						r := util.KeyPathRange{StartIndex: i, EndIndex: i + n, KeyPath: util.KeyPath{Path: "m", Key: toKey(kk)}}
						err := r.GenerateRange()
						t.Step()
						if (err != nil) != (d == 255) {
							t.Failf("key range below depth %d: err=%v", d, err)
						}
						for _, e := range r.KeyPaths {
							if int(e.Key[4]) != d+1 {
								t.Failf("key range below depth %d holds a key of depth %d", d, e.Key[4])
							}
						}
					}
				}
				t.State(d, kk.Private())
			}
		})
	}
	keyProducts(c, allScalars(), func(t *mc.T, k ref.XKey) {
		for n := 0; n < 2; n++ {
			i := anyOf(k, n)
			if !k.Private() {
				i = softOf(k, n)
			}
			g, err := child(t, k, i)
			t.Step()
			if (err != nil) != (k.Depth == 255) || err == nil && (int(g[4]) != int(k.Depth)+1) {
				t.Failf("NewChildKey(%d) below depth %d: depth %d, err %v (%s)", i, k.Depth, g[4], err, k.B58())
			}
			k = k.Neuter(pubOf[k.Ver])
		}
	})
	for _, mode := range []string{"soft", "hard", "public", "mixed"} {
		mode := mode
		c.Case(mc.N("chain to 255, %s", mode), func(t *mc.T) {
			m, _ := ref.Master(detBytes("chain", 32), xprv, ref.HMAC512)
			if mode == "public" {
				m = m.Neuter(xpub)
			}
			k := toKey(m)
			for n := 1; n <= 256; n++ {
				i := uint32(n)
				if mode == "hard" || mode == "mixed" && n%2 == 0 {
					i += hard
				}
				w, werr := m.Child(i, ref.HMAC512)
				ck, err := k.NewChildKey(i)
				t.Step()
				t.State(mode, n)
				if n == 256 {
					if err == nil {
						t.Failf("256th derivation succeeded with depth %d", ck[4])
					}
					break
				}
				if err != nil || werr != nil {
					t.Failf("derivation %d: %v (%v)", n, err, werr)
				}
				if d := diffKey(ck, w); d != "" {
					t.Failf("derivation %d: %s", n, d)
				}
				if int(ck.GetDepth()[0]) != n {
					t.Failf("depth %d after %d derivations", ck.GetDepth()[0], n)
				}
				m, k = w, ck
			}
		})
	}
	for _, n := range []int{0, 1, 2, 100, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513} {
		for _, mode := range []string{"soft", "hard"} {
			n, mode := n, mode
			c.Case(mc.N("generator path of %d %s components", n, mode), func(t *mc.T) {
				root, _ := ref.Master(detBytes("chain2", 32), xprv, ref.HMAC512)
				var path []uint32
				for i := 0; i < n; i++ {
					v := uint32(i % 3)
					if mode == "hard" {
						v += hard
					}
					path = append(path, v)
				}
				var g util.Generator
				g.SetRootKey(toKey(root))
				res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
				t.Step()
				checkPathResult(t, root, path, ref.HMAC512, res, err)
				t.State(n, mode)
			})
		}
	}
}
