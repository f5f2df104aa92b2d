package main

import (
	"fmt"

	"verifmc/mc"
	"verifmc/ref"
)

// The pairwise and three-way products of the key fields' alphabets: for every two fields,
// every combination of their values, and for every three fields with the
// scalars thinned out unless thorough; the other fields taken from each of two
// base keys.
type field struct {
	n    int
	name string
	set  func(k *ref.XKey, i int)
}

var (
	depthAlpha = []byte{0, 1, 2, 3, 5, 16, 127, 128, 253, 254, 255}
	fpAlpha    = [][4]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {1, 0, 0, 0}, {0x80, 0, 0, 0}, {0, 0xff, 0, 0xff}, {0xff, 0xff, 0xff, 0xff}, {0x9a, 0x78, 0, 0}, {0, 0, 0x56, 0x34}}
	ccDense    = append(append([][32]byte(nil), ccAlphabet...), func() (o [][32]byte) {
		for _, z := range []int{1, 2, 8, 16, 31} {
			a, b := det32(fmt.Sprintf("ccz%d", z)), det32(fmt.Sprintf("cct%d", z))
			for i := 0; i < z; i++ {
				a[i], b[31-i] = 0, 0
			}
			o = append(o, a, b)
		}
		return
	}()...)
)

func keyFields(ss []named) []field {
	return []field{
		{len(pairs), "version", func(k *ref.XKey, i int) { k.Ver = pairs[i].prv }},
		{len(depthAlpha), "depth", func(k *ref.XKey, i int) { k.Depth = depthAlpha[i] }},
		{len(fpAlpha), "fp", func(k *ref.XKey, i int) { k.FP = fpAlpha[i] }},
		{len(edgeIdx), "number", func(k *ref.XKey, i int) { k.CN = edgeIdx[i] }},
		{len(ccDense), "chaincode", func(k *ref.XKey, i int) { k.CC = ccDense[i] }},
		{len(ss), "scalar", func(k *ref.XKey, i int) { b := ref.Bytes32(ss[i].v); copy(k.Key[1:], b[:]) }},
	}
}

func denseBases() []ref.XKey {
	a := prvKey(xprv, h2i(detBytes("dense", 32)), det32("densecc"))
	b := prvKey(0x04b2430c, h2i(detBytes("dense2", 32)), det32("densecc2"))
	b.Depth, b.FP, b.CN = 4, [4]byte{0xde, 0xad, 0xbe, 0xef}, hard+44
	return []ref.XKey{a, b}
}

// keyProducts runs f on every key of these products. A fingerprint or child
// number at depth zero is cleared: that would be no valid key.
func keyProducts(c *mc.C, ss []named, f func(t *mc.T, k ref.XKey)) {
	fs := keyFields(ss)
	few := ss
	if !c.Thorough {
		few = nil
		for i, s := range ss {
			if i%6 == 1 || s.name == "n-1" {
				few = append(few, s)
			}
		}
	}
	fs3 := keyFields(few)
	run := func(t *mc.T, k ref.XKey) {
		if k.Depth == 0 {
			k.FP, k.CN = [4]byte{}, 0
		}
		b := k.Bytes()
		t.State(b[:])
		f(t, k)
	}
	for bi2, base := range denseBases() {
		for a := range fs {
			for b := a + 1; b < len(fs); b++ {
				for i := 0; i < fs[a].n; i++ {
					base, a, b, i, bi2 := base, a, b, i, bi2
					c.Case(mc.N("product base %d: %s#%d x %s", bi2, fs[a].name, i, fs[b].name), func(t *mc.T) {
						k := base
						fs[a].set(&k, i)
						for j := 0; j < fs[b].n; j++ {
							fs[b].set(&k, j)
							run(t, k)
						}
					})
				}
				for i := 0; i < fs3[a].n; i++ {
					for d := b + 1; d < len(fs); d++ {
						base, a, b, i, bi2, d := base, a, b, i, bi2, d
						c.Case(mc.N("product base %d: %s#%d x %s x %s", bi2, fs[a].name, i, fs[b].name, fs[d].name), func(t *mc.T) {
							k := base
							fs3[a].set(&k, i)
							for j := 0; j < fs3[b].n; j++ {
								fs3[b].set(&k, j)
								for l := 0; l < fs3[d].n; l++ {
									if t.Expired() {
										return
									}
									fs3[d].set(&k, l)
									run(t, k)
								}
							}
						})
					}
				}
			}
		}
	}
}

// keySweep runs f on every value of every byte of the base keys that keeps the
// key private and valid (the version is left alone).
func keySweep(c *mc.C, f func(t *mc.T, k ref.XKey)) {
	zero := prvKey(xprv, bi(1), [32]byte{})
	for bi2, base := range append(denseBases(), zero) {
		for p := 4; p < 78; p++ {
			if p == 45 {
				continue
			}
			base, p, bi2 := base, p, bi2
			c.Case(mc.N("sweep base %d byte %d", bi2, p), func(t *mc.T) {
				for v := 0; v < 256; v++ {
					b := base.Bytes()
					b[p] = byte(v)
					k := ref.ParseX(b)
					if p >= 5 && p < 13 && k.Depth == 0 {
						k.Depth = 1
					}
					if k.Depth == 0 {
						k.FP, k.CN = [4]byte{}, 0
					}
					if _, ok := k.Point(); !ok {
						continue
					}
					b = k.Bytes()
					t.State(b[:])
					f(t, k)
				}
			})
		}
	}
}

// pick spreads the edge indexes (or other n-element alphabets) over the keys
// of an exploration, the same way on every run.
func pick(k ref.XKey, salt, n int) int {
	h := uint32(2166136261)
	b := k.Bytes()
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	h = (h ^ uint32(salt)) * 16777619
	h ^= h >> 15
	return int(h % uint32(n))
}

func softOf(k ref.XKey, salt int) uint32 { s := soft(); return s[pick(k, salt, len(s))] }
func anyOf(k ref.XKey, salt int) uint32  { return edgeIdx[pick(k, salt, len(edgeIdx))] }

// entDense is every entropy of n bytes that (a) has one byte taking every
// value over a background of 00, ff or mixed bytes, (b) has a window of 00 or ff
// bytes in mixed bytes or the reverse, (c) spells one word everywhere, or (d) has
// two equal words.
func entDense(n int) (o [][]byte) {
	det := detBytes("entdense", n)
	bg := [][]byte{make([]byte, n), fill(1, n), det}
	for _, g := range bg {
		for p := 0; p < n; p++ {
			for v := 0; v < 256; v++ {
				e := append([]byte(nil), g...)
				e[p] = byte(v)
				o = append(o, e)
			}
		}
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j <= n; j++ {
			for _, g := range bg[:2] {
				e := append([]byte(nil), det...)
				copy(e[i:j], g)
				o = append(o, e)
				e = append([]byte(nil), g...)
				copy(e[i:j], det)
				o = append(o, e)
			}
		}
	}
	groups := (n*8 + n/4) / 11
	for v := 0; v < 2048; v++ {
		e := make([]byte, n)
		for g := 0; g < groups; g++ {
			e = setGroup(e, g, v)
		}
		o = append(o, e)
	}
	for a := 0; a < groups; a++ {
		for b := a + 1; b < groups; b++ {
			for _, v := range []int{0, 1, 1023, 1024, 2047} {
				o = append(o, setGroup(setGroup(det, a, v), b, v))
			}
		}
	}
	return
}
