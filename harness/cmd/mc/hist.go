package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks, mc.Check{ID: "C26", Explore: c26, Rule: "an alphabet of operation instances of every exported operation, with arguments that pairwise agree in all but one component; baseline = the instance alone in a fresh process (several processes, with different environments); every ordered pair of instances (quick), every triple inside a family (quick) or at all (thorough), each history in its own process, returned values and argument memory scribbled over after every call; long histories of distinct arguments followed by every instance; argument memory and the memory around it watched on every call; every two arguments that agree in a short hash, a sum, a set of bytes or the ends, in both orders",
		Assum: []string{"the shared list returned by word-list retrieval and a generator's root key pointer are handles by design and are not scribbled over"}})
	probes["hist"] = histProbe
}

// henv owns the memory handed to one call.
type henv struct {
	bufs []hbuf
	keys []hkey
	errs []string
}
type hbuf struct {
	all, orig []byte
}
type hkey struct {
	p    *bip32.Key
	orig bip32.Key
}

// b returns a copy of v with watched bytes in front and behind, the latter
// inside its capacity.
func (e *henv) b(v []byte) []byte {
	all := bytes.Repeat([]byte{0xc3}, 16+len(v)+96)
	copy(all[16:], v)
	e.bufs = append(e.bufs, hbuf{all, append([]byte(nil), all...)})
	return all[16 : 16+len(v)]
}
func (e *henv) k(k bip32.Key) *bip32.Key {
	p := new(bip32.Key)
	*p = k
	e.keys = append(e.keys, hkey{p, k})
	return p
}
func (e *henv) check() string {
	for _, b := range e.bufs {
		if !bytes.Equal(b.all, b.orig) {
			return fmt.Sprintf("argument memory changed: %x -> %x", b.orig, b.all)
		}
	}
	for _, k := range e.keys {
		if *k.p != k.orig {
			return fmt.Sprintf("key changed: %x -> %x", k.orig, *k.p)
		}
	}
	return strings.Join(e.errs, "; ")
}
func (e *henv) scribble() {
	for _, b := range e.bufs {
		for i := range b.all {
			b.all[i] ^= 0x5c
		}
	}
	for _, k := range e.keys {
		for i := range k.p {
			k.p[i] ^= 0x5c
		}
	}
}

// canon renders results independently of addresses.
func canon(vs []any) string {
	var w strings.Builder
	for i, v := range vs {
		if i > 0 {
			w.WriteByte(' ')
		}
		switch v := v.(type) {
		case nil:
			w.WriteString("nil")
		case []byte:
			w.WriteString("x" + hex.EncodeToString(v))
		case bip32.Key:
			w.WriteString("k" + hex.EncodeToString(v[:]))
		case *bip32.Key:
			if v == nil {
				w.WriteString("nokey")
			} else {
				w.WriteString("k" + hex.EncodeToString(v[:]))
			}
		case *big.Int:
			w.WriteString(v.Text(16))
		case error:
			fmt.Fprintf(&w, "error")
		case []util.KeyPath:
			fmt.Fprintf(&w, "[%d", len(v))
			for _, p := range v {
				fmt.Fprintf(&w, " %s=%x", p.Path, p.Key[:])
			}
			w.WriteByte(']')
		default:
			fmt.Fprintf(&w, "%q", fmt.Sprint(v))
		}
	}
	return w.String()
}

// spoil scribbles over returned memory.
func spoil(vs []any) {
	for _, v := range vs {
		switch v := v.(type) {
		case []byte:
			v = v[:cap(v)]
			for i := range v {
				v[i] ^= 0xa5
			}
		case *bip32.Key:
			if v != nil {
				for i := range v {
					v[i] ^= 0xa5
				}
			}
		case *big.Int:
			if v != nil {
				w := v.Bits()
				for i := range w {
					w[i] ^= 0x5555
				}
			}
		case []uint32:
			v = v[:cap(v)]
			for i := range v {
				v[i] ^= 0x5555
			}
		case []util.KeyPath:
			v = v[:cap(v)]
			for i := range v {
				v[i].Path = "spoilt"
				v[i].Key[10] ^= 0xff
			}
		}
	}
}

// hop is one operation instance.
type hop struct {
	fam, name string
	run       func(e *henv) []any
}

var sharedGen util.Generator
var sharedRange util.KeyPathRange

// histOps is the alphabet. Arguments of one family pairwise agree in all but
// one component, so that a result remembered under too small a key shows.
var histOps = func() []hop {
	var o []hop
	add := func(fam, name string, run func(e *henv) []any) { o = append(o, hop{fam, fam + " " + name, run}) }

	// entropy and sentences
	ent := detBytes("hist", 32)
	ents := [][]byte{ent[:16], ent[:20], ent[:32], append([]byte{ent[0] ^ 0x80}, ent[1:16]...), append(append([]byte(nil), ent[:15]...), ent[15]^1), make([]byte, 16), append(make([]byte, 3), ent[:13]...), ent[:17], nil}
	for i, v := range ents {
		v := v
		add("encode", fmt.Sprint(i), func(e *henv) []any { s, err := bip39.NewMnemonic(e.b(v)); return []any{s, err} })
	}
	eng := refList("english")
	sents := []string{ref.Sentence(ents[0], eng), ref.Sentence(ents[3], eng), ref.Sentence(ents[2], eng), ref.Sentence(ents[5], eng), "abandon " + ref.Sentence(ents[0], eng), strings.Repeat("abandon ", 12),
		strings.ReplaceAll(ref.Sentence(ents[0], eng), " ", "  "), ""}
	for i, v := range sents {
		v := v
		add("decode", fmt.Sprint(i), func(e *henv) []any { b, err := bip39.EntropyFromMnemonic(v); return []any{b, err} })
		add("bytes", fmt.Sprint(i), func(e *henv) []any { b, err := bip39.MnemonicToByteArray(v); return []any{b, err} })
		add("bytes", fmt.Sprint(i, " raw"), func(e *henv) []any {
			raw := [3]bool{true, true, true} // a caller's slice with room behind it
			b, err := bip39.MnemonicToByteArray(v, raw[:2]...)
			if raw != [3]bool{true, true, true} {
				e.errs = append(e.errs, fmt.Sprintf("raw flags changed: %v", raw))
			}
			return []any{b, err}
		})
		add("valid", fmt.Sprint(i), func(e *henv) []any { return []any{bip39.IsMnemonicValid(v)} })
	}
	for i, v := range [][2]string{{sents[0], "x"}, {sents[0], "y"}, {sents[0] + "x", ""}, {sents[1], "x"}, {"", sents[0]}} {
		v := v
		add("stretch", fmt.Sprint(i), func(e *henv) []any { return []any{bip39.NewSeed(v[0], v[1])} })
		if i != 4 {
			add("hexseed", fmt.Sprint(i), func(e *henv) []any { s, err := util.DeriveSeedFromMnemonic(v[0], v[1]); return []any{s, err} })
		}
	}
	add("stretch", "checked", func(e *henv) []any { s, err := bip39.NewSeedWithErrorChecking(sents[0], "x"); return []any{s, err} })
	add("stretch", "checked bad", func(e *henv) []any { s, err := bip39.NewSeedWithErrorChecking(sents[4], "x"); return []any{s, err} })
	for _, w := range []string{"abandon", "zoo", "nope"} {
		w := w
		add("index", w, func(e *henv) []any { i, ok := bip39.GetWordIndex(w); return []any{i, ok} })
	}
	// another list in between, restored afterwards
	for _, ln := range []string{"japanese", "spanish", "custom-reversed"} {
		ln := ln
		add("list", ln, func(e *henv) []any {
			use(ln)
			defer use("english")
			s, err := bip39.NewMnemonic(e.b(ents[0]))
			b, err2 := bip39.EntropyFromMnemonic(sents[0])
			return []any{s, err, b, err2}
		})
	}
	add("random", "entropy", func(e *henv) []any { b, err := bip39.NewEntropy(128); return []any{len(b), err} })
	add("random", "mnemonic", func(e *henv) []any {
		s, err := util.GenerateMnemonic(15)
		return []any{len(strings.Fields(s)), bip39.IsMnemonicValid(s), err}
	})
	add("random", "seed", func(e *henv) []any { b, err := bip32.NewSeed(); return []any{len(b), err} })

	// seeds and master keys
	sd := detBytes("histseed", 80)
	for i, v := range [][]byte{sd[:16], sd[:32], sd[:64], sd[:65], append(append([]byte(nil), sd[:63]...), sd[63]^1), append([]byte{sd[0] ^ 1}, sd[1:64]...), nil} {
		v := v
		add("master", fmt.Sprint(i), func(e *henv) []any { k, err := bip32.NewMasterKey(e.b(v)); return []any{k, err} })
		add("hexroot", fmt.Sprint(i), func(e *henv) []any { k, err := util.RootKeyFromSeed(hx(v)); return []any{k, err} })
	}
	add("hexroot", "bad", func(e *henv) []any { _, err := util.RootKeyFromSeed("zz" + hx(sd[:32])); return []any{err} })

	// keys that agree in all but one field
	base := prvKey(xprv, new(big.Int).SetBytes(sd[:32]), det32("histcc"))
	base.Depth, base.FP, base.CN = 3, [4]byte{1, 2, 3, 4}, 7
	mk := func(f func(k *ref.XKey)) ref.XKey { k := base; f(&k); return k }
	flip := func(k *ref.XKey) { // the negated scalar: same X coordinate
		s := new(big.Int).Sub(ref.N, new(big.Int).SetBytes(k.Key[1:]))
		b := ref.Bytes32(s)
		copy(k.Key[1:], b[:])
	}
	pub := func(k ref.XKey) ref.XKey { return k.Neuter(pubOf[k.Ver]) }
	keys := []struct {
		n string
		k ref.XKey
	}{
		{"base", base}, {"other scalar", mk(func(k *ref.XKey) { k.Key[32] ^= 1 })}, {"other top", mk(func(k *ref.XKey) { k.Key[1] ^= 1 })}, {"negated", mk(flip)},
		{"other chain", mk(func(k *ref.XKey) { k.CC[31] ^= 1 })}, {"other chain top", mk(func(k *ref.XKey) { k.CC[0] ^= 1 })},
		{"other version", mk(func(k *ref.XKey) { k.Ver = pairs[3].prv })}, {"unregistered", mk(func(k *ref.XKey) { k.Ver = 0x01020304 })},
		{"other depth", mk(func(k *ref.XKey) { k.Depth = 4 })}, {"other parent", mk(func(k *ref.XKey) { k.FP[0] ^= 1 })}, {"other number", mk(func(k *ref.XKey) { k.CN = 8 })},
		{"public", pub(base)}, {"public negated", pub(mk(flip))}, {"public other chain", pub(mk(func(k *ref.XKey) { k.CC[31] ^= 1 }))},
		{"public other version", func() ref.XKey { k := pub(base); k.Ver = pairs[3].pub; return k }()},
		{"public other depth", pub(mk(func(k *ref.XKey) { k.Depth = 4 }))}, {"deepest", mk(func(k *ref.XKey) { k.Depth = 255 })}, {"zero", ref.XKey{}},
	}
	for _, kk := range keys {
		kk := kk
		for _, idx := range []uint32{0, 1, hard} {
			idx := idx
			add("child", fmt.Sprintf("%s %d", kk.n, idx), func(e *henv) []any {
				c, err := e.k(toKey(kk.k)).NewChildKey(idx)
				if err != nil {
					return []any{err}
				}
				return []any{c}
			})
		}
		if kk.n == "zero" {
			add("ser", kk.n, func(e *henv) []any {
				k := e.k(toKey(kk.k))
				b, err := k.Serialize()
				return []any{b, err, k.String(), k.IsValid()}
			})
			continue
		}
		add("ser", kk.n, func(e *henv) []any {
			k := e.k(toKey(kk.k))
			b, err := k.Serialize()
			return []any{b, err, k.B58Serialize(), k.String(), k.IsValid()}
		})
		add("neuter", kk.n, func(e *henv) []any { return []any{e.k(toKey(kk.k)).PublicKeyExtended()} })
		add("keyhex", kk.n, func(e *henv) []any {
			k := e.k(toKey(kk.k))
			return []any{k.PublicKeyHex(), k.PrivateKeyHex(), k.IsPrivate(), k.GetVersion(), k.GetDepth(), k.GetFingerPrint(), k.GetChildNumber(), k.GetChainCode(), k.GetKeyBytes()}
		})
		add("addr", kk.n, func(e *henv) []any {
			p := util.KeyPath{Path: "m/1", Key: toKey(kk.k)}
			return []any{p.AddrHex(), p.AddrP2SH(0), p.AddrP2SH(5)}
		})
		s := kk.k.Serialized()
		add("deser", kk.n, func(e *henv) []any { k, err := bip32.Deserialize(e.b(s)); return []any{k, err} })
		add("text", kk.n, func(e *henv) []any { k, err := bip32.B58Deserialize(kk.k.B58()); return []any{k, err} })
	}
	bs := base.Serialized()
	for i, v := range [][]byte{bs[:40], bs[:81], nil, append(append([]byte(nil), bs...), 0), append(append([]byte(nil), bs[:81]...), bs[81]^1)} {
		v := v
		add("deser", fmt.Sprint("bad ", i), func(e *henv) []any { _, err := bip32.Deserialize(e.b(v)); return []any{err} })
	}
	add("deser", "base again", func(e *henv) []any { k, err := bip32.Deserialize(e.b(bs)); return []any{k, err} })
	add("text", "bad", func(e *henv) []any { _, err := bip32.B58Deserialize(base.B58()[1:]); return []any{err} })

	// helpers
	for _, n := range []int{0, 1, 20, 33, 78, 200} {
		for v := 0; v < 2; v++ {
			d := detBytes("hh", n)
			if n > 0 {
				d[n-1] ^= byte(v)
			}
			d = append([]byte(nil), d...)
			nm := fmt.Sprint(n, " ", v)
			add("hash160", nm, func(e *henv) []any { b, err := bip32.HashRipeMD160onSha256(e.b(d)); return []any{b, err} })
			add("checksum", nm, func(e *henv) []any { b, err := bip32.ChecksumDblSha256(e.b(d)); return []any{b, err} })
			add("addsum", nm, func(e *henv) []any { b, err := bip32.AddChecksumDblSha256ToBytes(e.b(d)); return []any{b, err} })
		}
	}
	for _, n := range []string{"public", "public negated", "public other chain"} {
		for _, kk := range keys {
			if kk.n == n {
				p := kk.k.Key
				add("expand", n, func(e *henv) []any { x, y := bip32.ExpandPublicKey(e.b(p[:])); return []any{x, y} })
			}
		}
	}
	for i, v := range []*big.Int{bi(0), bi(1), new(big.Int).Sub(ref.N, bi(1)), ref.N} {
		b := ref.Bytes32(v)
		add("scalar", fmt.Sprint(i), func(e *henv) []any { return []any{bip32.ValidatePrivateKey(bip32.PvtKeyBytes(b))} })
	}

	// paths
	for _, s := range []string{"m", "M", "m/0", "m/0'", "m/1", "m/44'/0'/0'/0/0", "m/44'/0'/0'/0/1", "m/44'/60'/0'/0/0", " m / 44' / 0 ", "m/2147483648", "m/4294967296", "m/0/0'", ""} {
		s := s
		add("path", s, func(e *henv) []any {
			p := bip32.Path(s)
			v, err := p.ValuesAtDepth()
			if err != nil {
				v = nil
			}
			return []any{v, err, p.IsValid(), p.String(), p.Formatted()}
		})
	}
	for _, s := range []string{"m/0/1", "m/44'/0'/0'/0/0"} {
		for _, d := range []byte{0, 1, 2, 9} {
			for _, v := range []uint32{3, hard + 3} {
				s, d, v := s, d, v
				add("edit", fmt.Sprint(s, d, v), func(e *henv) []any {
					x, err := bip32.Path(s).ValueAtDepth(d)
					p, err2 := bip32.Path(s).ReplaceValueAtDepth(d, v)
					if err2 != nil {
						p = ""
					}
					return []any{x, err, p, err2}
				})
			}
		}
	}
	// versions and coins
	for _, v := range []bip32.VersionBytes{bip32.Bitcoinxprvxpub, bip32.Bitcoinyprvypub, bip32.Nexaxprvxpub, {Path: "m/44'"}, {}} {
		v := v
		add("version", fmt.Sprintf("%s %s", v.Coin, v.Path), func(e *henv) []any {
			a, e1 := v.PurposeVal()
			b, e2 := v.CoinVal()
			c, e3 := v.PurposeValFull()
			d, e4 := v.CoinValFull()
			return []any{a, e1, b, e2, c, e3, d, e4, v.IsValid(), v.IsRegistered(), v.PvtKeyFlagBytes(), v.PubKeyFlagBytes()}
		})
	}
	for _, i := range []uint32{0, 1, 2, 60} {
		cn := bip44.RegBip44CoinsTypeToValMap[i]
		add("coin", cn.Name, func(e *henv) []any { return []any{cn.String(), cn.StringForMD(), cn.IsValid()} })
	}
	add("coin", "lookups", func(e *henv) []any {
		return []any{bip44.RegBip44CoinsTypeToValMap[1997], bip44.RegBip44CoinsNameToValMap["Bitcoin"], bip44.RegBip44CoinsPathCompToValMap[hard+60]}
	})
	add("versions", "lookups", func(e *henv) []any {
		var s []string
		for _, h := range bip32.HDVersionBytesSlice {
			s = append(s, fmt.Sprint(h))
		}
		sort.Strings(s)
		return []any{strings.Join(s, ","), len(bip32.PvtFlagToHDBytesSlice), len(bip32.PubFlagToHDBytesSlice), len(bip32.PathToHDBytesSlice["m/44'/1'"]), fmt.Sprint(bip32.DefaultMainnetVersion, bip32.DefaultTestnetVersion)}
	})

	// generators and ranges
	root := prvKey(xprv, new(big.Int).SetBytes(sd[:32]), det32("histcc"))
	roots := []struct {
		n string
		k ref.XKey
	}{{"root", root}, {"root other chain", func() ref.XKey { k := root; k.CC[31] ^= 1; return k }()}, {"root other version", func() ref.XKey { k := root; k.Ver = pairs[3].prv; return k }()}, {"no root", base}, {"public", root.Neuter(xpub)}}
	for _, r := range roots {
		for _, p := range []util.Path{"m", "m/44'/0'/0'/0/1", "m/44'/0'/0'/0/2", "m/44'/0'/0'/1", "m/x"} {
			r, p := r, p
			add("derive", fmt.Sprint(r.n, " ", p), func(e *henv) []any {
				var g util.Generator
				g.SetRootKey(toKey(r.k))
				ks, err := g.DeriveBIP32Result(p)
				return []any{ks, err, *g.RootKey()}
			})
			add("derive", fmt.Sprint("one generator ", r.n, " ", p), func(e *henv) []any {
				sharedGen.SetRootKey(toKey(r.k))
				ks, err := sharedGen.DeriveBIP32Result(p)
				return []any{ks, err, *sharedGen.RootKey()}
			})
		}
		for _, v := range []struct {
			s, e uint32
			p    util.Path
		}{{0, 2, "m"}, {1, 2, "m"}, {0, 2, "m/0'"}, {hard - 1, hard + 1, "m"}, {2, 1, "m"}} {
			r, v := r, v
			add("range", fmt.Sprint(r.n, v), func(e *henv) []any {
				k := util.KeyPathRange{StartIndex: v.s, EndIndex: v.e, KeyPath: util.KeyPath{Path: v.p, Key: toKey(r.k)}}
				err := k.GenerateRange()
				if k.StartIndex != v.s || k.EndIndex != v.e || k.Path != v.p || k.Key != toKey(r.k) {
					e.errs = append(e.errs, "GenerateRange changed its request")
				}
				return []any{k.KeyPaths, err}
			})
			add("range", fmt.Sprint("one object ", r.n, v), func(e *henv) []any {
				sharedRange.StartIndex, sharedRange.EndIndex, sharedRange.KeyPath = v.s, v.e, util.KeyPath{Path: v.p, Key: toKey(r.k)}
				sharedRange.KeyPaths = nil
				err := sharedRange.GenerateRange()
				return []any{sharedRange.KeyPaths, err}
			})
		}
	}
	return o
}

// histStep runs one instance and returns its rendering.
func histStep(op hop) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("panic: %v", r)
		}
	}()
	e := &henv{}
	res := op.run(e)
	out = canon(res)
	if s := e.check(); s != "" {
		out += " ARGUMENTS: " + s
	}
	spoil(res)
	e.scribble()
	return out
}

// histProbe runs a list of instances given by number ("5 9 5", "*" = every
// instance with the given ones before it, "long FAM" = a long history).
func histProbe(args []string) {
	ops := histOps()
	w := os.Stdout
	var buf bytes.Buffer
	defer func() { w.Write(buf.Bytes()) }()
	step := func(i int) { fmt.Fprintf(&buf, "%d %s\n", i, strings.ReplaceAll(histStep(ops[i]), "\n", "\\n")) }
	mode := args[0]
	var pre []int
	for _, a := range args[1:] {
		var i int
		fmt.Sscan(a, &i)
		pre = append(pre, i)
	}
	switch mode {
	case "seq":
		for _, i := range pre {
			step(i)
		}
	case "each": // pre, X, pre, Y, ...
		for x := range ops {
			for _, i := range pre {
				step(i)
			}
			step(x)
		}
	case "fam": // triples inside the family of pre[0], pre[0] first
		for y := range ops {
			for z := range ops {
				if ops[y].fam == ops[pre[0]].fam && ops[z].fam == ops[pre[0]].fam {
					step(pre[0])
					step(y)
					step(z)
				}
			}
		}
	case "rep": // pre[1] times pre[0]; prints changes only
		last := ""
		for n := 0; n < pre[1]; n++ {
			if l := fmt.Sprintf("%d %s", pre[0], strings.ReplaceAll(histStep(ops[pre[0]]), "\n", "\\n")); l != last {
				fmt.Fprintln(&buf, l)
				last = l
			}
		}
	case "long":
		longHistory(pre[0])
		for x := range ops {
			step(x)
		}
	}
}

// longHistory floods whatever memory an operation might keep.
func longHistory(n int) {
	use("english")
	var g util.Generator
	var r util.KeyPathRange
	for i := 0; i < n; i++ {
		d := detBytes(fmt.Sprint("long", i), 64)
		k, err := bip32.NewMasterKey(d)
		if err != nil {
			continue
		}
		c, _ := k.NewChildKey(uint32(i))
		p := c.PublicKeyExtended()
		pc, _ := p.NewChildKey(uint32(i))
		s := pc.String()
		bip32.B58Deserialize(s)
		b, _ := c.Serialize()
		bip32.Deserialize(b)
		kp := util.KeyPath{Path: "m/1", Key: p}
		kp.AddrHex()
		kp.AddrP2SH(byte(i))
		m, _ := bip39.NewMnemonic(d[:16+4*(i%5)])
		bip39.EntropyFromMnemonic(m)
		bip39.MnemonicToByteArray(m)
		bip39.IsMnemonicValid(m + "x")
		if i%8 == 0 {
			bip39.NewSeed(m, s)
			util.DeriveSeedFromMnemonic(m, s)
		}
		util.RootKeyFromSeed(hx(d))
		pa := util.Path(fmt.Sprintf("m/44'/%d'/%d", i, i))
		pa.ValuesAtDepth()
		pa.ReplaceValueAtDepth(2, uint32(i)+hard)
		g.SetRootKey(*k)
		g.DeriveBIP32Result(pa)
		r.StartIndex, r.EndIndex, r.Key, r.Path = uint32(i), uint32(i)+2, *k, pa
		r.GenerateRange()
		bip32.HashRipeMD160onSha256(d)
		bip32.AddChecksumDblSha256ToBytes(d)
		bip39.GetWordIndex(m)
	}
}

func histRun(t *mc.T, env []string, dir string, args ...string) []string {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(env, "MC_PROBE=hist")
	cmd.Dir = dir
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	if err != nil {
		s := se.String()
		t.Failf("history process failed: %v: %s", err, s[:min(len(s), 1500)])
	}
	return strings.Split(strings.TrimSuffix(string(out), "\n"), "\n")
}

// histCmp compares outputs of history processes with each instance's result
// when it is the only call of a fresh process.
type histCmp struct {
	c    *mc.C
	ops  []hop
	base map[int]string
}

func newHistCmp(c *mc.C) *histCmp { return &histCmp{c, histOps(), map[int]string{}} }

func (h *histCmp) baseline(t *mc.T, i int) string {
	if b, ok := h.base[i]; ok {
		return b
	}
	f := fmt.Sprintf("%s/hist-%d", h.c.Dir, i)
	if b, err := os.ReadFile(f); h.c.Dir != "" && err == nil {
		h.base[i] = string(b)
		return h.base[i]
	}
	l := histRun(t, os.Environ(), "", "seq", fmt.Sprint(i))
	if len(l) != 1 {
		t.Failf("baseline of %s: %q", h.ops[i].name, l)
	}
	h.base[i] = l[0]
	if h.c.Dir != "" {
		tmp := fmt.Sprintf("%s.%d", f, os.Getpid())
		if os.WriteFile(tmp, []byte(l[0]), 0o600) == nil {
			os.Rename(tmp, f)
		}
	}
	return l[0]
}

func (h *histCmp) compare(t *mc.T, got []string) {
	var hist []string
	for _, g := range got {
		var i int
		if _, err := fmt.Sscan(g, &i); err != nil || i < 0 || i >= len(h.ops) {
			t.Failf("history process says %q", g)
		}
		t.Step()
		b := h.baseline(t, i)
		if b != g {
			if len(hist) > 6 {
				hist = append([]string{"..."}, hist[len(hist)-6:]...)
			}
			t.Failf("after {%s}, %s gives %s; alone it gives %s", strings.Join(hist, " | "), h.ops[i].name, clip(g), clip(b))
		}
		t.State(i, lastOf(hist))
		hist = append(hist, h.ops[i].name)
	}
}

// famHistories explores, for a property's own operation families, every
// ordered pair of instances of these families (and, in families of up to 20
// instances, every triple within one family), from a fresh process for each
// first instance: a result must not depend on an earlier call with other
// arguments.
func famHistories(c *mc.C, fams ...string) {
	h := newHistCmp(c)
	in := map[string]bool{}
	size := map[string]int{}
	for _, f := range fams {
		in[f] = true
	}
	var idx []string
	for i, o := range h.ops {
		size[o.fam]++
		if in[o.fam] {
			idx = append(idx, fmt.Sprint(i))
		}
	}
	for _, f := range fams {
		if size[f] == 0 {
			panic("no family " + f)
		}
	}
	for _, s := range idx {
		s := s
		var i int
		fmt.Sscan(s, &i)
		c.Case(mc.N("history pairs after: %s", h.ops[i].name), func(t *mc.T) {
			args := []string{"seq"}
			for _, y := range idx {
				args = append(args, s, y)
			}
			h.compare(t, histRun(t, os.Environ(), "", args...))
			t.Outcome("history pairs")
		})
		if size[h.ops[i].fam] <= 20 {
			c.Case(mc.N("history triples after: %s", h.ops[i].name), func(t *mc.T) {
				h.compare(t, histRun(t, os.Environ(), "", "fam", s))
				t.Outcome("history triples")
			})
		}
	}
	// and after every other operation: one process for a few of one family
	for x := 0; x < len(h.ops); {
		n := 1
		for x+n < len(h.ops) && n < 12 && h.ops[x+n].fam == h.ops[x].fam {
			n++
		}
		from, to := x, x+n
		x = to
		if in[h.ops[from].fam] {
			continue
		}
		c.Case(mc.N("history pairs after the foreign: %s (%d)", h.ops[from].name, n), func(t *mc.T) {
			args := []string{"seq"}
			for z := from; z < to; z++ {
				for _, y := range idx {
					args = append(args, fmt.Sprint(z), y)
				}
			}
			h.compare(t, histRun(t, os.Environ(), "", args...))
			t.Outcome("foreign history pairs")
		})
	}
}

func c26(c *mc.C) {
	h := newHistCmp(c)
	ops, compare := h.ops, h.compare
	baseline := h.baseline
	famSize := map[string]int{}
	for _, o := range ops {
		famSize[o.fam]++
	}
	n := 3
	if c.Thorough {
		n = 16
	}
	for i := range ops {
		i := i
		c.Case(mc.N("alone: %s", ops[i].name), func(t *mc.T) {
			b := baseline(t, i)
			if strings.Contains(b, "ARGUMENTS:") || strings.Contains(b, " panic:") {
				t.Failf("%s: %s", ops[i].name, clip(b))
			}
			for k := 0; k < n; k++ {
				env := os.Environ()
				if k == 1 {
					env = []string{"LANG=ja_JP.UTF-8", "TZ=Asia/Tokyo", "GOMAXPROCS=1", "HOME=/nonexistent"}
				}
				if k == 2 {
					env = append(env, "GOGC=1", "LC_ALL=tr_TR.UTF-8", "GODEBUG=randautoseed=0")
				}
				got := histRun(t, env, "/", "seq", fmt.Sprint(i), fmt.Sprint(i))
				compare(t, got)
			}
			t.Outcome("alone")
		})
	}
	for i := range ops {
		i := i
		c.Case(mc.N("pairs after: %s", ops[i].name), func(t *mc.T) {
			compare(t, histRun(t, os.Environ(), "", "each", fmt.Sprint(i)))
			t.Outcome("all pairs from one instance")
		})
		if !c.Thorough && famSize[ops[i].fam] > 20 {
			continue
		}
		c.Case(mc.N("family triples after: %s", ops[i].name), func(t *mc.T) {
			compare(t, histRun(t, os.Environ(), "", "fam", fmt.Sprint(i)))
			t.Outcome("family triples from one instance")
		})
	}
	seen := map[string]bool{}
	for i, o := range ops {
		n := 66000
		if !c.Thorough {
			n = 8300
			switch o.fam {
			case "stretch", "hexseed", "list":
				n = 1100
			}
		}
		if seen[o.fam] && !c.Thorough {
			continue
		}
		seen[o.fam] = true
		i := i
		c.Case(mc.N("%d times: %s", n, o.name), func(t *mc.T) {
			compare(t, histRun(t, os.Environ(), "", "rep", fmt.Sprint(i), fmt.Sprint(n)))
			t.Outcome("repeated")
		})
	}
	longs := []int{40, 300, 1100}
	if c.Thorough {
		longs = append(longs, 5000)
	}
	for _, l := range longs {
		l := l
		c.Case(mc.N("after %d distinct calls of everything", l), func(t *mc.T) {
			compare(t, histRun(t, os.Environ(), "", "long", fmt.Sprint(l)))
			t.Outcome("long history")
		})
	}
	if c.Thorough {
		for i := range ops {
			for j := range ops {
				i, j := i, j
				c.Case(mc.N("triples after: %s | %s", ops[i].name, ops[j].name), func(t *mc.T) {
					compare(t, histRun(t, os.Environ(), "", "each", fmt.Sprint(i), fmt.Sprint(j)))
					t.Outcome("all triples from one pair")
				})
			}
		}
	}
	alikeCases(c, "encode", "decode", "stretch", "master", "child", "public child", "secret", "serialize", "valid", "path", "edit", "derive", "range", "address", "helper")
	c.Note("instances", fmt.Sprint(len(ops)))
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-150:]
	}
	return s
}
func lastOf(h []string) string {
	if len(h) == 0 {
		return ""
	}
	return h[len(h)-1]
}
