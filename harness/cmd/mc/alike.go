package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/util"
	"verifmc/mc"
	"verifmc/ref"
)

// Arguments that a careless memory takes for one another: pairs of different
// values with the same short hash (the usual 32-bit ones, a key's fingerprint
// or checksum), or made of the same bytes in another order, or with the same
// sum. The colliding pairs were found by an exhaustive search (probe "alike"
// prints the table below) and are checked against the hash when used.

var shortHashes = map[string]func(b []byte) uint32{
	"fnv1":     func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() },
	"fnv1a":    func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() },
	"fnv1-64":  func(b []byte) uint32 { h := fnv.New64(); h.Write(b); return uint32(h.Sum64()) },
	"fnv1a-64": func(b []byte) uint32 { h := fnv.New64a(); h.Write(b); return uint32(h.Sum64()) },
	"crc32":    crc32.ChecksumIEEE,
	"crc32c":   func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) },
	"adler32":  adler32.Checksum,
	"times31": func(b []byte) (h uint32) {
		for _, c := range b {
			h = h*31 + uint32(c)
		}
		return
	},
	"djb2": func(b []byte) (h uint32) {
		h = 5381
		for _, c := range b {
			h = h*33 + uint32(c)
		}
		return
	},
	"djb2x": func(b []byte) (h uint32) {
		h = 5381
		for _, c := range b {
			h = h*33 ^ uint32(c)
		}
		return
	},
	"sha256 head": func(b []byte) uint32 { return binary.BigEndian.Uint32(sha(b)) },
	"sha256 tail": func(b []byte) uint32 { return binary.BigEndian.Uint32(sha(b)[28:]) },
	"checksum":    func(b []byte) uint32 { return binary.BigEndian.Uint32(sha(sha(b))) },
	"hash160":     func(b []byte) uint32 { return binary.BigEndian.Uint32(ref.Hash160(b)) },
}

const alikeWords = "legal winner thank year wave sausage worth useful legal winner thank yellow"

// alikeDomains turn a number into an argument and the bytes that are hashed.
var alikeDomains = map[string]func(i int) []byte{
	"entropy":  func(i int) []byte { return alikeEnt(i) },
	"sentence": func(i int) []byte { return []byte(ref.Sentence(alikeEnt(i), refList("english"))) },
	"pass":     func(i int) []byte { return []byte(alikePass(i)) },
	"salt":     func(i int) []byte { return []byte("mnemonic" + alikePass(i)) },
	"words+pass": func(i int) []byte {
		return []byte(alikeWords + alikePass(i))
	},
	"words+salt": func(i int) []byte { return []byte(alikeWords + "mnemonic" + alikePass(i)) },
	"words0pass": func(i int) []byte { return []byte(alikeWords + "\x00" + alikePass(i)) },
	"seed":       func(i int) []byte { return alikeSeed(i) },
	"hexseed":    func(i int) []byte { return []byte(hx(alikeSeed(i))) },
	"key":        func(i int) []byte { b := alikeKey(i).Bytes(); return b[:] },
	"keytext":    func(i int) []byte { return []byte(alikeKey(i).B58()) },
	"scalar":     func(i int) []byte { b := alikeKey(i).Key; return b[1:] },
	"pub":        func(i int) []byte { b := ref.Compress(ref.BaseMult(alikeScalar(i))); return b[:] },
	"pubkey":     func(i int) []byte { b := alikeKey(i).Neuter(xpub).Bytes(); return b[:] },
	"pubtext":    func(i int) []byte { return []byte(alikeKey(i).Neuter(xpub).B58()) },
	"path":       func(i int) []byte { return []byte(alikePath(i)) },
	"data":       func(i int) []byte { return alikeData(i) },
}

func alikeEnt(i int) []byte {
	b := detBytes("alike", 16)
	binary.BigEndian.PutUint32(b[7:], uint32(i*2654435761))
	return b
}
func alikePass(i int) string { return fmt.Sprintf("pw%d", i*1299721) }
func alikeSeed(i int) []byte {
	b := detBytes("alikeseed", 32)
	binary.BigEndian.PutUint32(b[13:], uint32(i*2654435761))
	return b
}
func alikeScalar(i int) *big.Int {
	return new(big.Int).Add(h2i(detBytes("alikekey", 32)), bi(int64(i)))
}

var alikeBase = func() ref.XKey {
	k := prvKey(xprv, bi(1), det32("alikecc"))
	k.Depth, k.FP, k.CN = 3, [4]byte{9, 8, 7, 6}, hard+2
	return k
}()

func alikeKey(i int) ref.XKey {
	k := alikeBase
	b := ref.Bytes32(alikeScalar(i))
	copy(k.Key[1:], b[:])
	return k
}
func alikePath(i int) string { return fmt.Sprintf("m/44'/0'/0'/%d/%d", i/1000, i%1000*977) }
func alikeData(i int) []byte {
	b := detBytes("alikedata", 20)
	binary.BigEndian.PutUint32(b[9:], uint32(i*2654435761))
	return b
}

func init() {
	probes["alike"] = func([]string) {
		var ds, hs []string
		for d := range alikeDomains {
			ds = append(ds, d)
		}
		for h := range shortHashes {
			hs = append(hs, h)
		}
		sort.Strings(ds)
		sort.Strings(hs)
		for _, d := range ds {
			seen := map[string]map[uint32]int{}
			done := map[string]bool{}
			for i := 0; len(done) < len(hs) && i < 1000000; i++ {
				b := alikeDomains[d](i)
				for _, h := range hs {
					if done[h] {
						continue
					}
					if seen[h] == nil {
						seen[h] = map[uint32]int{}
					}
					v := shortHashes[h](b)
					if j, ok := seen[h][v]; ok {
						fmt.Fprintf(os.Stdout, "\t{%q, %q, %d, %d},\n", d, h, j, i)
						done[h] = true
						delete(seen, h)
						continue
					}
					seen[h][v] = i
				}
			}
		}
	}
}

type alikePair struct {
	name string
	a, b any
}

// alikes lists the pairs of one domain, checked.
func alikes(domain string, val func(i int) any) (o []alikePair) {
	for _, x := range alikeTable {
		if x.domain != domain {
			continue
		}
		p, q := alikeDomains[domain](x.i), alikeDomains[domain](x.j)
		if string(p) == string(q) || shortHashes[x.hash](p) != shortHashes[x.hash](q) {
			panic(fmt.Sprint("no collision: ", x))
		}
		o = append(o, alikePair{domain + ": same " + x.hash, val(x.i), val(x.j)})
	}
	if len(o) == 0 {
		panic("no pairs of " + domain)
	}
	return
}

// shuffled lists pairs of a byte string and a variant that a sum, an exclusive
// or, a set of its bytes or a part of it does not tell apart.
func shuffled(b []byte) (o []alikePair) {
	add := func(name string, f func(c []byte)) {
		c := append([]byte(nil), b...)
		f(c)
		if string(c) != string(b) {
			o = append(o, alikePair{name, append([]byte(nil), b...), c})
		}
	}
	n := len(b)
	for _, i := range []int{0, 1, n / 2, n - 2} {
		i := i
		add(fmt.Sprint("bytes swapped at ", i), func(c []byte) { c[i], c[i+1] = c[i+1], c[i] })
	}
	add("reversed", func(c []byte) {
		for i := range c {
			c[i] = b[n-1-i]
		}
	})
	add("halves swapped", func(c []byte) { copy(c, b[n/2:]); copy(c[n-n/2:], b[:n/2]) })
	for _, w := range []int{2, 4, 8} {
		w := w
		if n >= 2*w {
			add(fmt.Sprint("words of ", w, " swapped"), func(c []byte) { copy(c, b[w:2*w]); copy(c[w:], b[:w]) })
			add(fmt.Sprint("same exclusive or by ", w), func(c []byte) { c[0] ^= 0x11; c[w] ^= 0x11 })
			add(fmt.Sprint("same sum by ", w), func(c []byte) { c[w-1]++; c[2*w-1]-- })
			add(fmt.Sprint("rotated by ", w), func(c []byte) { copy(c, b[w:]); copy(c[n-w:], b[:w]) })
		}
	}
	add("same sum and weighted sum", func(c []byte) { c[3]++; c[4] -= 2; c[5]++ })
	for _, i := range []int{0, n / 4, n / 2, 3 * n / 4, n - 1} { // single bytes
		i := i
		add(fmt.Sprint("all but byte ", i), func(c []byte) { c[i] ^= 0x20 })
	}
	for _, p := range []uint64{0x104c11db7, 0x11edc6f41} { // same CRC-32 wherever it stands
		for _, at := range []int{0, n / 2, n - 5} {
			p, at := p, at
			add(fmt.Sprintf("same CRC %x at %d", p, at), func(c []byte) { // bit-reflected, least bit first
				for k := 0; k < 33; k++ {
					if p>>(32-uint(k))&1 == 1 {
						c[at+k/8] ^= 1 << uint(k%8)
					}
				}
			})
		}
	}
	return
}

// permuted lists pairs of valid sentences of the same words.
func permuted(s string) (o []alikePair) {
	w := strings.Fields(s)
	idx := ref.IndexOf(refList("english"))
	for i := range w {
		for j := i + 1; j < len(w); j++ {
			v := append([]string(nil), w...)
			v[i], v[j] = v[j], v[i]
			r := strings.Join(v, " ")
			if _, err := ref.DecodeString(r, idx); err == nil && r != s && len(o) < 6 {
				o = append(o, alikePair{fmt.Sprintf("words %d and %d swapped", i, j), s, r})
			}
		}
	}
	return
}

func asBytes(i int, d string) any { return alikeDomains[d](i) }

// alikeCases runs the operations of the named kinds on every pair, a b a b.
func alikeCases(c *mc.C, kinds ...string) {
	each := func(kind string, ps []alikePair, f func(t *mc.T, x any)) {
		for _, p := range ps {
			p := p
			c.Case(mc.N("alike, %s: %s", kind, p.name), func(t *mc.T) {
				use("english")
				for n := 0; n < 2; n++ {
					f(t, p.a)
					f(t, p.b)
				}
				t.State(p.name)
			})
		}
	}
	of := func(d string) []alikePair { return alikes(d, func(i int) any { return asBytes(i, d) }) }
	keys := func() (o []alikePair) {
		for _, d := range []string{"key", "keytext", "scalar", "pub", "pubkey", "pubtext"} {
			o = append(o, alikes(d, func(i int) any { return alikeKey(i) })...)
		}
		base := alikeKey(0)
		for _, p := range shuffled(base.Key[1:]) {
			k := base
			copy(k.Key[1:], p.b.([]byte))
			o = append(o, alikePair{"scalar " + p.name, base, k})
		}
		for _, p := range shuffled(base.CC[:]) {
			k := base
			copy(k.CC[:], p.b.([]byte))
			o = append(o, alikePair{"chain code " + p.name, base, k})
		}
		k := base // scalar and chain code exchanged
		copy(k.CC[:], base.Key[1:])
		copy(k.Key[1:], base.CC[:])
		o = append(o, alikePair{"scalar and chain code exchanged", base, k})
		return
	}
	pubs := func(ps []alikePair) (o []alikePair) {
		for _, p := range ps {
			o = append(o, alikePair{"public, " + p.name, p.a.(ref.XKey).Neuter(xpub), p.b.(ref.XKey).Neuter(xpub)})
		}
		return
	}
	eng := refList("english")
	idx := ref.IndexOf(eng)
	paths := func() (o []alikePair) {
		o = alikes("path", func(i int) any { return alikePath(i) })
		for _, p := range [][2]string{{"m/1/2/3", "m/3/2/1"}, {"m/1/23", "m/12/3"}, {"m/1'/2", "m/1/2"}, {"m/1'/2'", "m/1'/2"}, {"m/12", "m/21"}, {"m/1/1/1", "m/1/1"}, {"m/0/0", "m/00"}, {"m/10", "m/1/0"}, {"m/257", "m/1"}, {"m/65537", "m/1"}, {"m/16777217", "m/1"},
			{"m/2147483649", "m/1"}, {"m/1'", "m/2147483649"}, {"m/44'/0'/0'/0/1", "m/44'/0'/0'/1/0"}, {"m/44'/0'/1'/0/0", "m/44'/1'/0'/0/0"}, {"m/84'/0'/0'", "m/48'/0'/0'"}, {"m/3/1", "m/2/2"}, {"m/1/4294967295", "m/2/4294967294"}} {
			o = append(o, alikePair{p[0] + " and " + p[1], p[0], p[1]})
		}
		return
	}
	master, _ := ref.Master(detBytes("alikeroot", 64), xprv, ref.HMAC512)
	derive := func(t *mc.T, k ref.XKey, p string) {
		var g util.Generator
		g.SetRootKey(toKey(k))
		res, err := g.DeriveBIP32Result(util.Path(p))
		t.Step()
		iv, _ := ref.ParsePath(p)
		checkPathResult(t, k, iv[1:], ref.HMAC512, res, err)
	}
	ranges := func(t *mc.T, k ref.XKey, p string, s, e uint32) {
		r := util.KeyPathRange{StartIndex: s, EndIndex: e, KeyPath: util.KeyPath{Path: util.Path(p), Key: toKey(k)}}
		err := r.GenerateRange()
		t.Step()
		checkRange(t, k, p, s, e, ref.HMAC512, nil, r.KeyPaths, err)
	}
	asMaster := func(k ref.XKey) ref.XKey { k.Depth, k.FP, k.CN = 0, [4]byte{}, 0; return k }
	indexes := []uint32{1, 257, 65537, 0x01000000, 0x01000001, 0x7fff0001, 0, 256, hard, hard + 1, hard + 256, hard + 65537, 0xffffff01, 0xffff0001}
	for _, kind := range kinds {
		switch kind {
		case "encode":
			each(kind, append(of("entropy"), shuffled(alikeEnt(0))...), func(t *mc.T, x any) { encCheck(t, x.([]byte), eng) })
			each(kind, alikes("sentence", func(i int) any { return alikeEnt(i) }), func(t *mc.T, x any) { encCheck(t, x.([]byte), eng) })
		case "decode":
			ps := append(of("sentence"), alikes("entropy", func(i int) any { return []byte(ref.Sentence(alikeEnt(i), eng)) })...)
			for _, p := range permuted(alikeWords) {
				ps = append(ps, alikePair{p.name, []byte(p.a.(string)), []byte(p.b.(string))})
			}
			each(kind, ps, func(t *mc.T, x any) {
				if _, err := decCheck(t, string(x.([]byte)), idx); err != nil {
					t.Failf("model: %v", err)
				}
				verdicts(t, string(x.([]byte)), true)
			})
		case "stretch":
			type mp struct{ m, p string }
			var ps []alikePair
			for _, d := range []string{"pass", "salt", "words+pass", "words+salt", "words0pass"} {
				ps = append(ps, alikes(d, func(i int) any { return mp{alikeWords, alikePass(i)} })...)
			}
			for _, d := range []string{"sentence", "entropy"} {
				ps = append(ps, alikes(d, func(i int) any { return mp{ref.Sentence(alikeEnt(i), eng), "x"} })...)
			}
			for _, p := range permuted(alikeWords) {
				ps = append(ps, alikePair{p.name, mp{p.a.(string), "x"}, mp{p.b.(string), "x"}})
			}
			for _, p := range [][2]string{{"ab", "ba"}, {"1", "2"}, {"abc", "acb"}, {"aab", "aba"}, {"secret pass", "pass secret"}, {"Aa", "BB"}, {"a\x00", "a"}, {"\x00a", "a"}, {"x", "xx"}, {strings.Repeat("q", 55) + "1", strings.Repeat("q", 55) + "2"}, {strings.Repeat("q", 255) + "1", strings.Repeat("q", 255) + "2"}} {
				ps = append(ps, alikePair{fmt.Sprintf("%.20q and %.20q (%d)", p[0], p[1], len(p[0])), mp{alikeWords, p[0]}, mp{alikeWords, p[1]}})
			}
			each(kind, ps, func(t *mc.T, x any) {
				v := x.(mp)
				w := ref.PBKDF2([]byte(v.m), []byte("mnemonic"+v.p), 2048)
				t.Step()
				if g := bip39.NewSeed(v.m, v.p); hx(g) != hx(w) {
					t.Failf("seed of %q, %q: %x, want %x", v.m, v.p, g, w)
				}
				if g, err := bip39.NewSeedWithErrorChecking(v.m, v.p); err != nil || hx(g) != hx(w) {
					t.Failf("checked seed of %q, %q: %x %v, want %x", v.m, v.p, g, err, w)
				}
				if g, err := util.DeriveSeedFromMnemonic(v.m, v.p); err != nil || g != hx(w) {
					t.Failf("hex seed of %q, %q: %s %v, want %x", v.m, v.p, g, err, w)
				}
			})
		case "master":
			ps := append(append(of("seed"), shuffled(alikeSeed(0))...), alikes("hexseed", func(i int) any { return alikeSeed(i) })...)
			each(kind, ps, func(t *mc.T, x any) {
				w := masterCmp(t, x.([]byte))
				k, err := util.RootKeyFromSeed(hex.EncodeToString(x.([]byte)))
				if err != nil || diffKey(*k, w) != "" {
					t.Failf("RootKeyFromSeed(%x): %v", x, err)
				}
			})
		case "child":
			each(kind, keys(), func(t *mc.T, x any) {
				for _, i := range []uint32{1, hard + 1} {
					childRef(t, x.(ref.XKey), i)
				}
			})
			c.Case(mc.N("alike, child: indexes"), func(t *mc.T) {
				for _, k := range []ref.XKey{alikeKey(0), master} {
					for _, i := range indexes {
						for _, j := range indexes {
							childRef(t, k, i)
							childRef(t, k, j)
						}
					}
				}
			})
		case "public child":
			each(kind, pubs(keys()), func(t *mc.T, x any) { childRef(t, x.(ref.XKey), 1) })
			each("square", keys(), func(t *mc.T, x any) { square(t, x.(ref.XKey), 1) })
			c.Case(mc.N("alike, public child: indexes"), func(t *mc.T) {
				k := alikeKey(0).Neuter(xpub)
				for _, i := range indexes {
					for _, j := range indexes {
						childRef(t, k, i)
						childRef(t, k, j)
					}
				}
			})
		case "secret":
			each(kind, keys(), func(t *mc.T, x any) {
				xk := x.(ref.XKey)
				k := toKey(xk)
				if g, w := k.PrivateKeyHex(), hx(xk.Key[1:]); !strings.HasSuffix(g, w) {
					t.Failf("private key hex %s of %x", g, k)
				}
				publicOnly(t, k.PublicKeyExtended())
			})
		case "serialize":
			each(kind, keys(), func(t *mc.T, x any) { roundTrip(t, x.(ref.XKey)) })
			each(kind, pubs(keys()), func(t *mc.T, x any) { roundTrip(t, x.(ref.XKey)) })
		case "valid":
			bad := func(k ref.XKey) ref.XKey { k.Key[0] = 5; return k }
			var ps []alikePair
			for _, p := range append(keys(), pubs(keys())...) {
				ps = append(ps, p, alikePair{p.name + ", one bad", p.a, bad(p.b.(ref.XKey))}, alikePair{p.name + ", other bad", bad(p.a.(ref.XKey)), p.b})
			}
			each(kind, ps, func(t *mc.T, x any) { judge(t, x.(ref.XKey)) })
		case "path":
			each(kind, paths(), func(t *mc.T, x any) { pathCheck(t, x.(string)) })
		case "edit":
			each(kind, paths(), func(t *mc.T, x any) {
				pv, _ := ref.ParsePath(x.(string))
				for d := 0; d <= len(pv); d++ {
					for _, v := range []uint32{0, 7, hard + 7} {
						replaceCheck(t, x.(string), pv, d, v)
					}
				}
			})
		case "derive":
			each(kind, paths(), func(t *mc.T, x any) { derive(t, master, x.(string)) })
			each(kind, keys(), func(t *mc.T, x any) { derive(t, asMaster(x.(ref.XKey)), "m/1'/2") })
		case "range":
			each(kind, paths(), func(t *mc.T, x any) { ranges(t, alikeBaseKey, x.(string), 3, 5) })
			each(kind, keys(), func(t *mc.T, x any) { ranges(t, x.(ref.XKey), "m/1", hard-1, hard+1) })
			each(kind, pubs(keys()), func(t *mc.T, x any) { ranges(t, x.(ref.XKey), "m/1", 3, 5) })
		case "address":
			each(kind, keys(), func(t *mc.T, x any) {
				k := x.(ref.XKey)
				p, _ := k.Point()
				addrCheck(t, p, k, k.Neuter(xpub))
				pub := ref.Compress(p)
				for _, kk := range []ref.XKey{k, k.Neuter(xpub)} {
					for _, v := range []byte{0, 5} {
						kp := util.KeyPath{Path: "m", Key: toKey(kk)}
						if g, w := kp.AddrP2SH(v), ref.B58Addr(v, pub[:]); g != w {
							t.Failf("Base58Check address of %s with version byte %02x is %s, want %s", kk.B58(), v, g, w)
						}
					}
				}
			})
		case "helper":
			each(kind, append(of("data"), shuffled(alikeData(0))...), func(t *mc.T, x any) {
				d := x.([]byte)
				t.Step()
				if g, err := bip32.HashRipeMD160onSha256(d); err != nil || hx(g) != hx(ref.Hash160(d)) {
					t.Failf("hash of %x: %x %v", d, g, err)
				}
				if g, err := bip32.ChecksumDblSha256(d); err != nil || hx(g) != hx(ref.DblSha4(d)) {
					t.Failf("checksum of %x: %x %v", d, g, err)
				}
				if g, err := bip32.AddChecksumDblSha256ToBytes(d); err != nil || hx(g) != hx(ref.WithChecksum(d)) {
					t.Failf("%x with checksum: %x %v", d, g, err)
				}
			})
		default:
			panic(kind)
		}
	}
}

var alikeBaseKey = alikeKey(0)
