package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/bip39"
	"github.com/mearaj/bips/bip44"
	"github.com/mearaj/bips/util"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks,
		mc.Check{ID: "C18", Explore: c18, Rule: "every row of the shipped SLIP-0132 table against every entry; every index in both directions, in this and in fresh processes, before and after use of the rest of the library; every entry path over an alphabet of component strings: validity against readable purpose and coin type; the registration test on every registered version and its neighbours; entry paths with every one or two characters before, behind, around and inside"},
		mc.Check{ID: "C23", Explore: c23, Rule: "private keys: all boundary scalars; public keys: points with every count of leading zero bytes in X (both parities) and in Y; consecutive multiples of G; oracle: own point arithmetic and Keccak over padded coordinates; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C24", Explore: c24, Rule: "all 256 version bytes x boundary keys (private and public forms), key products and points with leading zero bytes; helpers on every input length to 2100 and selected ones to 1 MiB, every fill pattern, with memory behind the slice watched; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C25", Explore: c25, Rule: "every row of the shipped SLIP-0044 table against the registry and the three lookups, both directions, in this and in fresh processes, before and after use of the rest of the library; validity of coins over boundary numbers x labels; a label of every code point"},
		mc.Check{ID: "C30", Explore: c30, Rule: "every registered coin x mnemonics of all sizes x passphrases x account/change/index boundary values, paths spelled and built component by component: the whole pipeline through the library against the model, step by step; purposes x coins x key versions"},
	)
}

type entry struct {
	coin, prvName, pubName, encs, path string
	prv, pub                           uint32
}

func mkEntry(v bip32.VersionBytes) entry {
	var e []string
	for _, a := range v.AddrEncodings {
		e = append(e, string(a))
	}
	sort.Strings(e)
	return entry{v.Coin, v.PvKeyPrefix, v.PubKeyPrefix, strings.Join(e, ","), string(v.Path), v.PvtKeyFlag, v.PubKeyFlag}
}

// registryErrors compares the version registry with the table.
func registryErrors() []string {
	var errs []string
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	flat := map[entry]int{}
	for _, v := range bip32.HDVersionBytesSlice {
		flat[mkEntry(v)]++
	}
	var ents []entry
	for e, n := range flat {
		if n != 1 {
			bad("%v is %d times in the flat list", e, n)
		}
		ents = append(ents, e)
	}
	used := map[entry]bool{}
	for _, r := range slip {
		enc := append([]string(nil), r.enc...)
		sort.Strings(enc)
		n := 0
		for _, e := range ents {
			if e.coin == r.coin && e.prv == r.prv && e.pub == r.pub && e.prvName == r.prvName && e.pubName == r.pubName && e.encs == strings.Join(enc, ",") && (r.path == "" || e.path == r.path) {
				n++
				used[e] = true
			}
		}
		if n != 1 {
			bad("table row %s %08x/%08x %v %s has %d registry entries", r.coin, r.prv, r.pub, r.enc, r.path, n)
		}
	}
	for _, e := range ents {
		if !used[e] {
			bad("registry entry %v is not in the table", e)
		}
	}
	if len(ents) != len(slip) {
		bad("%d entries, %d table rows", len(ents), len(slip))
	}
	check := func(name string, count map[entry]int) {
		for _, e := range ents {
			if count[e] != 1 {
				bad("%v is %d times in index %s", e, count[e], name)
			}
		}
		if len(count) != len(ents) {
			bad("index %s holds %d different entries, list %d", name, len(count), len(ents))
		}
	}
	num := func(name string, idx map[uint32][]bip32.VersionBytes, key func(bip32.VersionBytes) (uint32, error)) {
		cnt := map[entry]int{}
		for k, l := range idx {
			for _, v := range l {
				cnt[mkEntry(v)]++
				kk, err := key(v)
				if err != nil || kk != k {
					bad("index %s holds %v under %d (own key %d, %v)", name, mkEntry(v), k, kk, err)
				}
			}
		}
		check(name, cnt)
	}
	comp := func(v bip32.VersionBytes, i int) (uint32, error) {
		p, ok := ref.ParsePath(string(v.Path))
		if !ok || len(p) != 3 || p[i] < hard {
			return 0, fmt.Errorf("path %s", v.Path)
		}
		return p[i] - hard, nil
	}
	num("private version", bip32.PvtFlagToHDBytesSlice, func(v bip32.VersionBytes) (uint32, error) { return v.PvtKeyFlag, nil })
	num("public version", bip32.PubFlagToHDBytesSlice, func(v bip32.VersionBytes) (uint32, error) { return v.PubKeyFlag, nil })
	num("purpose", bip32.PurposeToHDBytesSlice, func(v bip32.VersionBytes) (uint32, error) { return comp(v, 1) })
	num("full purpose", bip32.PurposeFullToHDBytesSlice, func(v bip32.VersionBytes) (uint32, error) { x, err := comp(v, 1); return x + hard, err })
	num("coin type", bip32.CoinTypeToHDBytesSlice, func(v bip32.VersionBytes) (uint32, error) { return comp(v, 2) })
	cnt := map[entry]int{}
	for k, l := range bip32.PathToHDBytesSlice {
		for _, v := range l {
			cnt[mkEntry(v)]++
			if string(v.Path) != k {
				bad("path index holds %v under %s", mkEntry(v), k)
			}
		}
	}
	check("path", cnt)
	for _, v := range bip32.HDVersionBytesSlice {
		if e := entryErr(v); e != "" {
			bad("%s", e)
		}
		if !v.IsValid() {
			bad("registered entry %v is not valid", mkEntry(v))
		}
		if b := v.PvtKeyFlagBytes(); uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]) != v.PvtKeyFlag {
			bad("PvtKeyFlagBytes %x of %08x", b, v.PvtKeyFlag)
		}
		if b := v.PubKeyFlagBytes(); uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]) != v.PubKeyFlag {
			bad("PubKeyFlagBytes %x of %08x", b, v.PubKeyFlag)
		}
	}
	sort.Strings(errs)
	return errs
}

// entryErr checks validity against readability and the values read.
func entryErr(v bip32.VersionBytes) string {
	pu, e1 := v.PurposeVal()
	co, e2 := v.CoinVal()
	pf, e3 := v.PurposeValFull()
	cf, e4 := v.CoinValFull()
	ok := v.IsValid()
	if ok != (e1 == nil && e2 == nil) || ok != (e3 == nil) || ok != (e4 == nil) {
		return fmt.Sprintf("path %q: IsValid=%v but purpose %v, coin %v, full purpose %v, full coin %v", v.Path, ok, e1, e2, e3, e4)
	}
	if !ok {
		return ""
	}
	p, pok := ref.ParsePath(string(v.Path))
	if !pok || len(p) != 3 || p[1] < hard || p[2] < hard {
		return fmt.Sprintf("path %q is valid", v.Path)
	}
	if pu != p[1]-hard || co != p[2]-hard || pf != p[1] || cf != p[2] {
		return fmt.Sprintf("path %q reads purpose %d/%d coin %d/%d", v.Path, pu, pf, co, cf)
	}
	return ""
}

func c18(c *mc.C) {
	c.Case(mc.N("registry against the table"), func(t *mc.T) {
		e := registryErrors()
		for _, r := range slip {
			t.Step()
			t.State(r.coin, r.prv, r.path)
		}
		if len(e) > 0 {
			t.Failf("%s", strings.Join(e[:min(4, len(e))], "; "))
		}
	})
	n := 12
	if c.Thorough {
		n = 200
	}
	for i := 0; i < n; i++ {
		i := i
		c.Case(mc.N("registry in fresh process %d", i), func(t *mc.T) {
			if out := freshProcess(t, "registry"); out != "" {
				t.Failf("%.800s", out)
			}
			t.Step()
			t.State("fresh", i)
		})
	}
	for _, f := range histFams() {
		f := f
		c.Case(mc.N("registry after %s operations", f), func(t *mc.T) {
			if out := freshProcess(t, "registry", f); out != "" {
				t.Failf("%.800s", out)
			}
			t.Step()
			t.State("after", f)
		})
	}
	// registration: exactly the registered paths, white space aside
	regd := map[string]bool{}
	for _, r := range slip {
		if r.path != "" {
			regd[r.path] = true
		}
	}
	for k := range bip32.PathToHDBytesSlice { // entries SLIP-0132 gives no path for
		regd[k] = true
	}
	regdIdx := map[string]bool{}
	for p := range regd {
		if idx, ok := ref.ParsePath(p); ok {
			regdIdx[fmt.Sprint(idx)] = true
		}
	}
	strip := strings.NewReplacer(" ", "", "\t", "", "\n", "", "\f", "", "\r", "").Replace
	isReg := func(t *mc.T, p string) {
		want := regd[strip(p)]
		if idx, ok := ref.ParsePath(p); !want && ok && regdIdx[fmt.Sprint(idx)] {
			return // another spelling of a registered path (m for M, leading zeros): not constrained
		}
		v := bip32.VersionBytes{Path: bip32.Path(p)}
		if got := v.IsRegistered(); got != want {
			t.Failf("path %q: registered %v, want %v", p, got, want)
		}
		t.Step()
		t.State("reg", p)
		t.Outcome(fmt.Sprint("registered ", want))
	}
	var rps []string
	for p := range regd {
		rps = append(rps, p)
	}
	sort.Strings(rps)
	for _, p := range rps {
		p := p
		c.Case(mc.N("registration of spellings of %s", p), func(t *mc.T) {
			for i := 0; i <= len(p); i++ {
				for _, s := range []string{"", " ", "  ", "\t", "\n", "\r\f", "0", "1", "'", "/", "x"} {
					isReg(t, p[:i]+s+p[i:])
				}
				if i > 0 {
					isReg(t, p[:i-1]+p[i:])
					isReg(t, p[:i])
				}
			}
			isReg(t, strings.ToUpper(p))
			isReg(t, strings.Join(strings.Split(p, ""), " "))
		})
	}
	for b := 0; b < 2000; b += 100 {
		b := b
		c.Case(mc.N("registration of coins %d..", b), func(t *mc.T) {
			for i := b; i < b+100; i++ {
				for _, u := range []int{0, 43, 44, 45, 48, 49, 84, 86} {
					isReg(t, fmt.Sprintf("m/%d'/%d'", u, i))
					isReg(t, fmt.Sprintf("m/%d/%d", u, i))
				}
			}
		})
	}
	for b := 0; b < 3000; b += 100 {
		b := b
		c.Case(mc.N("entry paths with purposes and coins %d..", b), func(t *mc.T) {
			for i := b; i < b+100; i++ {
				for _, p := range []string{fmt.Sprintf("m/%d'/0'", i), fmt.Sprintf("m/44'/%d'", i), fmt.Sprintf("m/%d'/%d'/0'", i, i), fmt.Sprintf("m/44'/%d'", hard-1-uint32(i)), fmt.Sprintf("m/%d'/1'", uint32(hard-1)-uint32(i)), fmt.Sprintf("m/44'/%d'", uint32(hard)+uint32(i))} {
					if e := entryErr(bip32.VersionBytes{Path: bip32.Path(p)}); e != "" {
						t.Failf("%s", e)
					}
					t.Step()
				}
				t.State("entry", i)
			}
		})
	}
	around(c, "entry path", "m/44'/0'", aroundToks, func(t *mc.T, s string) {
		if strings.Contains(s, "\v") {
			return
		}
		v := bip32.VersionBytes{Path: bip32.Path(s)}
		var e string
		t.Try(fmt.Sprintf("path %q", s), func() { e = entryErr(v) })
		if e != "" {
			t.Failf("%s", e)
		}
		isReg(t, s)
	}, 1, 2, 4)
	parts := []string{"", "0", "1", "44", "49'", "0044", "12345678", "99999999", "123456789", "2147483647", "2147483648", "4294967296", "4294967340", "99999999999999999999", "x", " 44 ", "-1", "+1", "4 4", "٤"}
	ends := []string{"", "'", "''"}
	for _, a := range parts {
		for _, ea := range ends {
			a, ea := a, ea
			c.Case(mc.N("entry path m/%s%s/*", a, ea), func(t *mc.T) {
				for _, b := range parts {
					for _, eb := range ends {
						for _, f := range []string{"m/%s/%s", "M/%s/%s", "m/%s/%s/0'", "/%s/%s", " m/%s/%s\n", "m/%s/%s/", "xm/%s/%s"} {
							v := bip32.VersionBytes{Path: bip32.Path(fmt.Sprintf(f, a+ea, b+eb))}
							var e string
							t.Try(fmt.Sprintf("path %q", v.Path), func() { e = entryErr(v) })
							t.Step()
							if e != "" {
								t.Failf("%s", e)
							}
							if v.IsValid() {
								t.Outcome("valid")
							} else {
								t.Outcome("invalid")
							}
							t.State(string(v.Path))
						}
					}
				}
			})
		}
	}
	for _, s := range []string{"", "m", "m/", "m/44'", "m/44'/0", "44'/0'", "m/44'/0'x", "m//"} {
		s := s
		c.Case(mc.N("entry path %q", s), func(t *mc.T) {
			if e := entryErr(bip32.VersionBytes{Path: bip32.Path(s)}); e != "" {
				t.Failf("%s", e)
			}
			t.State(s)
		})
	}
}

func addrCheck(t *mc.T, p ref.Point, keys ...ref.XKey) {
	pub := ref.Compress(p)
	want := ref.EthAddr(p)
	x, y := bip32.ExpandPublicKey(append([]byte(nil), pub[:]...))
	t.Step()
	if x.Cmp(p.X) != 0 || y.Cmp(p.Y) != 0 {
		t.Failf("ExpandPublicKey(%x) = %x,%x want %x,%x", pub, x, y, p.X, p.Y)
	}
	for _, k := range keys {
		kp := util.KeyPath{Path: "m", Key: toKey(k)}
		if g := kp.AddrHex(); g != want {
			t.Failf("hex address of %s (private=%v, x=%x y=%x) is %s, want %s", k.B58(), k.Private(), p.X, p.Y, g, want)
		}
		if kp.Key != toKey(k) {
			t.Failf("the key changed")
		}
	}
}

func pointKeys(zpName string, p ref.Point) []ref.XKey {
	return []ref.XKey{{Ver: xpub, Depth: 1, CC: det32("a"), Key: ref.Compress(p)}, {Ver: 0x04b24746, Depth: 5, CN: hard, CC: det32(zpName), Key: ref.Compress(p)}}
}

func c23(c *mc.C) {
	famHistories(c, "addr", "expand")
	alikeCases(c, "address")
	for _, s := range allScalars() {
		s := s
		c.Case(mc.N("scalar %s", s.name), func(t *mc.T) {
			p := ref.BaseMult(s.v)
			for _, v := range pairs {
				k := prvKey(v.prv, s.v, det32("c23"))
				addrCheck(t, p, k, k.Neuter(v.pub))
			}
			t.State(s.name)
		})
	}
	for _, zp := range zeroPoints() {
		zp := zp
		c.Case(mc.N("point %s", zp.name), func(t *mc.T) {
			addrCheck(t, zp.p, pointKeys(zp.name, zp.p)...)
			addrCheck(t, ref.Neg(zp.p), pointKeys(zp.name, ref.Neg(zp.p))...)
			t.State(zp.name)
		})
	}
	n := 20000
	if c.Thorough {
		n = 400000
	}
	for b := 0; b < n; b += 250 {
		b := b
		c.Case(mc.N("multiples %d.. of G", b+1), func(t *mc.T) {
			p := ref.BaseMult(bi(int64(b + 1)))
			for i := 0; i < 250; i++ {
				k := prvKey(xprv, bi(int64(b+1+i)), det32("c23m"))
				pk := k
				pk.Ver = xpub
				pk.Key = ref.Compress(p)
				if i%5 == 0 {
					addrCheck(t, p, k, pk)
				} else {
					addrCheck(t, p, pk)
				}
				p = ref.Add(p, ref.G)
				t.State(b + i)
			}
		})
	}
	both := func(t *mc.T, k ref.XKey) {
		p, _ := k.Point()
		addrCheck(t, p, k, k.Neuter(pubOf[k.Ver]))
	}
	keyProducts(c, allScalars(), both)
	keySweep(c, both)
	// alternation between keys that share a coordinate
	c.Case(mc.N("opposite points alternating"), func(t *mc.T) {
		for i := int64(1); i < 50; i++ {
			p := ref.BaseMult(bi(i))
			q := ref.Neg(p)
			for j := 0; j < 3; j++ {
				addrCheck(t, p, pointKeys("p", p)...)
				addrCheck(t, q, pointKeys("p", q)...)
			}
			t.State(i)
		}
	})
}

func c24(c *mc.C) {
	famHistories(c, "addr", "hash160", "checksum", "addsum")
	alikeCases(c, "address", "helper")
	b58 := func(t *mc.T, k ref.XKey, pub [33]byte, v int) {
		kp := util.KeyPath{Path: "m", Key: toKey(k)}
		t.Step()
		if g, w := kp.AddrP2SH(byte(v)), ref.B58Addr(byte(v), pub[:]); g != w {
			t.Failf("Base58Check address of %s with version byte %02x is %s, want %s", k.B58(), v, g, w)
		}
		if kp.Key != toKey(k) {
			t.Failf("the key changed")
		}
	}
	for si, s := range allScalars() {
		s, si := s, si
		c.Case(mc.N("scalar %s, all version bytes", s.name), func(t *mc.T) {
			pub := ref.Compress(ref.BaseMult(s.v))
			vp := pairs[si%len(pairs)]
			k := prvKey(vp.prv, s.v, det32("c24"))
			for v := 0; v < 256; v++ {
				b58(t, k, pub, v)
				b58(t, k.Neuter(vp.pub), pub, v)
				t.State(s.name, v)
			}
		})
	}
	for _, zp := range zeroPoints() {
		zp := zp
		c.Case(mc.N("point %s", zp.name), func(t *mc.T) {
			for _, k := range pointKeys(zp.name, zp.p) {
				for v := 0; v < 256; v += 3 {
					b58(t, k, k.Key, v)
				}
			}
			t.State(zp.name)
		})
	}
	n := 4000
	if c.Thorough {
		n = 200000
	}
	for b := 0; b < n; b += 250 { // hashes with leading zero bytes turn up here
		b := b
		c.Case(mc.N("multiples %d.. of G", b+1), func(t *mc.T) {
			p := ref.BaseMult(bi(int64(b + 1)))
			for i := 0; i < 250; i++ {
				k := ref.XKey{Ver: xpub, Depth: 1, Key: ref.Compress(p)}
				for _, v := range []int{0, 5, 111, 196, 255} {
					b58(t, k, k.Key, v)
				}
				p = ref.Add(p, ref.G)
				t.State(b + i)
			}
		})
	}
	both := func(t *mc.T, k ref.XKey) {
		n := k.Neuter(pubOf[k.Ver])
		for i := 0; i < 3; i++ {
			vb := pick(k, i, 256)
			b58(t, k, n.Key, vb)
			b58(t, n, n.Key, vb)
		}
	}
	keyProducts(c, allScalars(), both)
	keySweep(c, both)
	lens := []int{4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 1 << 20}
	for n := 0; n <= 2100; n++ {
		lens = append(lens, n)
	}
	for _, n := range lens {
		n := n
		c.Case(mc.N("helpers on %d bytes", n), func(t *mc.T) {
			for k := 0; k < 5; k++ {
				d := fill(k, n)
				big := append(append(make([]byte, 0, n+64), d...), bytes.Repeat([]byte{0xa5}, 64)...)
				keep := append([]byte(nil), big...)
				in := big[:n]
				r, err := bip32.HashRipeMD160onSha256(in)
				if err != nil || !bytes.Equal(r, ref.Hash160(d)) {
					t.Failf("HashRipeMD160onSha256(%x) = %x, %v", d, r, err)
				}
				cs, err := bip32.ChecksumDblSha256(in)
				if err != nil || !bytes.Equal(cs, ref.DblSha4(d)) {
					t.Failf("ChecksumDblSha256(%x) = %x, %v", d, cs, err)
				}
				a, err := bip32.AddChecksumDblSha256ToBytes(in)
				if err != nil || !bytes.Equal(a, ref.WithChecksum(d)) {
					t.Failf("AddChecksumDblSha256ToBytes(%x) = %x, %v", d, a, err)
				}
				if !bytes.Equal(big, keep) {
					t.Failf("a helper wrote into its caller's memory (input of %d bytes): %x", n, big)
				}
				a2, _ := bip32.AddChecksumDblSha256ToBytes(in)
				for i := range a {
					a[i] ^= 0xff
				}
				if !bytes.Equal(big, keep) {
					t.Failf("the result of AddChecksumDblSha256ToBytes shares its caller's memory")
				}
				if !bytes.Equal(a2, ref.WithChecksum(d)) {
					t.Failf("two results share memory")
				}
				t.Step()
				t.State(n, k)
			}
		})
	}
	c.Case(mc.N("helpers on nil"), func(t *mc.T) {
		if r, err := bip32.HashRipeMD160onSha256(nil); err != nil || !bytes.Equal(r, ref.Hash160(nil)) {
			t.Failf("%x", r)
		}
		if r, err := bip32.AddChecksumDblSha256ToBytes(nil); err != nil || !bytes.Equal(r, ref.WithChecksum(nil)) {
			t.Failf("%x", r)
		}
		t.State("nil")
	})
}

type coinRow struct {
	comp         uint32
	symbol, name string
}

func slip44() []coinRow {
	b, err := os.ReadFile(repo + "/bip44/slip-0044.md")
	if err != nil {
		panic(err)
	}
	var o []coinRow
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, "|", 5)
		if len(f) < 5 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		hex := strings.ToLower(f[2])
		if !strings.HasPrefix(hex, "0x") {
			continue
		}
		v, err := strconv.ParseUint(hex[2:], 16, 32)
		if err != nil {
			continue
		}
		name := strings.TrimSpace(strings.TrimSuffix(f[4], "|"))
		if f[3] == "" && name == "" || strings.Contains(strings.ToLower(name), "reserved") || strings.HasPrefix(name, "---") {
			continue
		}
		o = append(o, coinRow{uint32(v), f[3], name})
	}
	if len(o) < 1000 {
		panic("SLIP-0044 table not understood")
	}
	return o
}

func coinErrors() []string {
	var errs []string
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	rows := map[coinRow]int{}
	for _, r := range slip44() {
		rows[r]++
	}
	got := map[coinRow]int{}
	types := map[uint32]int{}
	all := map[bip44.Coin]bool{}
	for _, k := range bip44.RegCoins {
		got[coinRow{k.PathComponent, k.Symbol, k.Name}]++
		types[k.Type]++
		all[k] = true
		if uint64(k.PathComponent) != uint64(k.Type)+1<<31 {
			bad("%s: type %d, path component %x", k.Name, k.Type, k.PathComponent)
		}
		if !k.IsValid() {
			bad("%v is not valid", k)
		}
	}
	for r, n := range rows {
		if got[r] != n {
			bad("table row %x %q %q is in the registry %d times, want %d", r.comp, r.symbol, r.name, got[r], n)
		}
	}
	for r, n := range got {
		if rows[r] != n {
			bad("registry coin %x %q %q is in the table %d times", r.comp, r.symbol, r.name, rows[r])
		}
	}
	for k, v := range bip44.RegBip44CoinsTypeToValMap {
		if v.Type != k || !all[v] {
			bad("type lookup %d gives %v", k, v)
		}
	}
	for k, v := range bip44.RegBip44CoinsPathCompToValMap {
		if v.PathComponent != k || !all[v] {
			bad("component lookup %x gives %v", k, v)
		}
	}
	for k, v := range bip44.RegBip44CoinsNameToValMap {
		if v.Name != k || !all[v] {
			bad("name lookup %q gives %v", k, v)
		}
	}
	for _, k := range bip44.RegCoins {
		if v, ok := bip44.RegBip44CoinsTypeToValMap[k.Type]; !ok || types[k.Type] == 1 && v != k {
			bad("type lookup of %v gives %v", k, v)
		}
		if v, ok := bip44.RegBip44CoinsPathCompToValMap[k.PathComponent]; !ok || types[k.Type] == 1 && v != k {
			bad("component lookup of %v gives %v", k, v)
		}
	}
	sort.Strings(errs)
	return errs
}

func c25(c *mc.C) {
	c.Case(mc.N("registry against the table"), func(t *mc.T) {
		for _, r := range slip44() {
			t.Step()
			t.State(r.comp, r.symbol, r.name)
		}
		if e := coinErrors(); len(e) > 0 {
			t.Failf("%s", strings.Join(e[:min(4, len(e))], "; "))
		}
	})
	for i := 0; i < 6; i++ {
		i := i
		c.Case(mc.N("registry in fresh process %d", i), func(t *mc.T) {
			if out := freshProcess(t, "coins"); out != "" {
				t.Failf("%.800s", out)
			}
			t.Step()
			t.State("fresh", i)
		})
	}
	for _, f := range histFams() {
		f := f
		c.Case(mc.N("registry after %s operations", f), func(t *mc.T) {
			if out := freshProcess(t, "coins", f); out != "" {
				t.Failf("%.800s", out)
			}
			t.Step()
			t.State("after", f)
		})
	}
	for b := uint32(0); b < 20000; b += 500 {
		b := b
		c.Case(mc.N("coin validity of types %d..", b), func(t *mc.T) {
			for i := b; i < b+500; i++ {
				for _, a := range []uint32{i, hard - 1 - i, hard + i} {
					for _, p := range []uint32{a, a + hard, a + hard + 1, a + hard - 1, a &^ hard, a | hard, a ^ hard ^ 1<<30} {
						k := bip44.Coin{Type: a, PathComponent: p, Symbol: "S"}
						w := a < hard && uint64(p) == uint64(a)+1<<31
						if g := k.IsValid(); g != w {
							t.Failf("%#v: IsValid %v, want %v", k, g, w)
						}
						t.Step()
					}
				}
				t.State("type", i)
			}
		})
	}
	for _, r := range slip44() {
		r := r
		c.Case(mc.N("coin %x %q %q", r.comp, r.symbol, r.name), func(t *mc.T) {
			k, ok := bip44.RegBip44CoinsPathCompToValMap[r.comp]
			t.Step()
			if !ok || k.PathComponent != r.comp || k.Type != r.comp-hard {
				t.Failf("component lookup: %v %v", k, ok)
			}
			if k2, ok := bip44.RegBip44CoinsTypeToValMap[r.comp-hard]; !ok || k2 != k {
				t.Failf("type lookup: %v, component lookup %v", k2, k)
			}
			if k3, ok := bip44.RegBip44CoinsNameToValMap[r.name]; !ok || k3.Name != r.name {
				t.Failf("name lookup: %v", k3)
			}
			t.State(r.comp, r.name)
		})
	}
	for b := 0; b < 0x110000; b += 0x4000 {
		b := b
		c.Case(mc.N("coin validity, labels of code point %x..", b), func(t *mc.T) {
			for i := b; i < b+0x4000; i++ {
				r := string(rune(i))
				w := !unicode.IsSpace([]rune(r)[0])
				for _, k := range []bip44.Coin{{Symbol: r}, {Name: r}, {Symbol: " ", Name: r + " "}, {Symbol: " " + r, Name: ""}, {Symbol: r, Name: r}} {
					k.Type, k.PathComponent = 60, hard+60
					t.Step()
					if g := k.IsValid(); g != w {
						t.Failf("%#v: IsValid %v, want %v", k, g, w)
					}
				}
				if i&0xff == 0 {
					t.State("label", i)
				}
			}
		})
	}
	types := []uint32{0, 1, 44, hard - 1, hard, hard + 1, 0xffffffff}
	labels := []string{"", " ", "\t\n", "BTC", " x ", "\u00a0", "\u3000", "0"}
	for _, a := range types {
		for _, b := range types {
			a, b := a, b
			c.Case(mc.N("coin validity type %d component %d", a, b), func(t *mc.T) {
				for _, s := range labels {
					for _, n := range labels {
						k := bip44.Coin{Type: a, PathComponent: b, Symbol: s, Name: n}
						w := strings.TrimSpace(s)+strings.TrimSpace(n) != "" && a < hard && uint64(b) == uint64(a)+1<<31
						t.Step()
						if g := k.IsValid(); g != w {
							t.Failf("%#v: IsValid %v, want %v", k, g, w)
						}
						t.Outcome(fmt.Sprint(w))
						t.State(a, b, s, n)
					}
				}
			})
		}
	}
}

// useEverything exercises the library in this process: every instance of the
// history alphabet ("all"), or those of one family.
func useEverything(after []string) {
	for _, f := range after {
		for _, o := range histOps() {
			if f == "all" || f == o.fam {
				histStep(o)
			}
		}
		if f == "all" {
			longHistory(30)
		}
	}
}

// histFams lists the operation families.
func histFams() (o []string) {
	seen := map[string]bool{}
	for _, h := range histOps() {
		if !seen[h.fam] {
			seen[h.fam] = true
			o = append(o, h.fam)
		}
	}
	return append(o, "all")
}

func init() {
	probes["registry"] = func(after []string) {
		useEverything(after)
		for _, e := range registryErrors() {
			fmt.Println(e)
		}
	}
	probes["coins"] = func(after []string) {
		useEverything(after)
		for _, e := range coinErrors() {
			fmt.Println(e)
		}
	}
}

func c30(c *mc.C) {
	famHistories(c, "hexseed", "hexroot", "derive", "addr", "edit", "coin")
	type wallet struct {
		ln, pass string
		ent      []byte
	}
	var ws []wallet
	for i, n := range sizes {
		ws = append(ws, wallet{"english", []string{"", "TREZOR", "a b", "\u0301x", "0"}[i], detBytes("c30", n)})
	}
	ws = append(ws, wallet{"japanese", "", detBytes("c30j", 16)}, wallet{"english", "", make([]byte, 16)}, wallet{"french", "p", append(make([]byte, 8), detBytes("c30f", 24)...)})
	for _, p := range cornerPass {
		ws = append(ws, wallet{"english", p.v, make([]byte, 16)})
	}
	coins := append([]bip44.Coin(nil), bip44.RegCoins...)
	run := func(t *mc.T, w wallet, ver pair, purpose uint32, ks []bip44.Coin, leafs [][3]uint32) {
		use(w.ln)
		m, err := bip39.NewMnemonic(w.ent)
		if err != nil || m != ref.Sentence(w.ent, refList(w.ln)) {
			t.Failf("mnemonic %q, %v", m, err)
		}
		seed, err := util.DeriveSeedFromMnemonic(m, w.pass)
		ws := ref.PBKDF2([]byte(m), []byte("mnemonic"+w.pass), 2048)
		if err != nil || seed != hx(ws) {
			t.Failf("seed %s, %v", seed, err)
		}
		root, err := util.RootKeyFromSeed(seed)
		if err != nil {
			t.Failf("root key: %v", err)
		}
		wr, _ := ref.Master(ws, xprv, ref.HMAC512)
		if d := diffKey(*root, wr); d != "" {
			t.Failf("root key: %s", d)
		}
		root.SetVersionUint32(ver.prv)
		wr.Ver = ver.prv
		var g util.Generator
		g.SetRootKey(*root)
		for _, k := range ks {
			for _, l := range leafs {
				p := bip32.Path(fmt.Sprintf("m/%d'/%d'/%d'/%d/%d", purpose, k.Type, l[0], l[1], l[2]))
				for _, from := range []bip32.Path{"m/0'/0'/0'/0/0", "m/44'/60'/2147483647'/1/2147483647"} {
					q := from
					for d, v := range []uint32{hard + purpose, k.PathComponent, hard + l[0], l[1], l[2]} {
						var err error
						if q, err = q.ReplaceValueAtDepth(byte(d+1), v); err != nil {
							t.Failf("%s from %s: depth %d: %v", p, from, d+1, err)
						}
					}
					if q != p {
						t.Failf("%s built component by component from %s is %s", p, from, q)
					}
				}
				v, err := p.ValueAtDepth(2)
				if err != nil || v != k.PathComponent {
					t.Failf("%s: coin component %d, %v", p, v, err)
				}
				if back, ok := bip44.RegBip44CoinsPathCompToValMap[v]; !ok || back.Type != k.Type {
					t.Failf("%s: leads back to %v", p, back)
				}
				res, err := g.DeriveBIP32Result(p)
				t.Step()
				idx := []uint32{hard + purpose, hard + k.Type, hard + l[0], l[1], l[2]}
				checkPathResult(t, wr, idx, ref.HMAC512, res, err)
				leaf := fromKey(res[5].Key)
				pt, _ := leaf.Point()
				pub := ref.Compress(pt)
				kp := res[5]
				if kp.AddrHex() != ref.EthAddr(pt) || kp.AddrP2SH(0) != ref.B58Addr(0, pub[:]) || kp.AddrP2SH(5) != ref.B58Addr(5, pub[:]) {
					t.Failf("%s: addresses %s %s", p, kp.AddrHex(), kp.AddrP2SH(0))
				}
				if kp.Key.PrivateKeyHex() != hx(leaf.Key[1:]) || kp.Key.PublicKeyHex() != hx(pub[:]) {
					t.Failf("%s: key hex", p)
				}
				if kp.Key.B58Serialize() != leaf.B58() {
					t.Failf("%s: %s", p, kp.Key.B58Serialize())
				}
				n := kp.Key.PublicKeyExtended()
				if n.B58Serialize() != leaf.Neuter(ver.pub).B58() {
					t.Failf("%s: %s", p, n.B58Serialize())
				}
				// the watch-only side: account public key, then change and index
				acc := res[3].Key.PublicKeyExtended()
				back, err := bip32.B58Deserialize(acc.B58Serialize())
				if err != nil {
					t.Failf("%s: %v", p, err)
				}
				cc, err := back.NewChildKey(l[1])
				if err != nil {
					t.Failf("%s: %v", p, err)
				}
				r := util.KeyPathRange{StartIndex: l[2], EndIndex: l[2] + 1, KeyPath: util.KeyPath{Path: res[4].Path, Key: cc}}
				if err := r.GenerateRange(); err != nil || len(r.KeyPaths) != 1 || r.KeyPaths[0].Key != n || r.KeyPaths[0].Path != kp.Path {
					t.Failf("%s: watch-only leaf differs: %v", p, err)
				}
				if r.KeyPaths[0].AddrHex() != kp.AddrHex() {
					t.Failf("%s: watch-only address differs", p)
				}
				t.State(leaf.Key[:])
			}
		}
	}
	leaf := [][3]uint32{{0, 0, 0}}
	all := [][3]uint32{}
	for _, a := range []uint32{0, 1, hard - 1} {
		for _, b := range []uint32{0, 1, hard - 2} {
			for _, i := range []uint32{0, 1, 19, hard - 2} {
				all = append(all, [3]uint32{a, b, i})
			}
		}
	}
	for b := 0; b < len(coins); b += 16 {
		e := min(b+16, len(coins))
		b := b
		c.Case(mc.N("coins %d..%d", b, e-1), func(t *mc.T) {
			run(t, ws[b/16%len(ws)], pair{xprv, xpub}, 44, coins[b:e], leaf)
		})
	}
	for wi, w := range ws {
		for ci := 0; ci < len(coins); ci += 97 {
			if !c.Thorough && (ci/97+wi)%8 != 0 {
				continue
			}
			w, wi, ci := w, wi, ci
			c.Case(mc.N("wallet %d coin %s, all leaves", wi, coins[ci].Name), func(t *mc.T) {
				run(t, w, pair{xprv, xpub}, 44, coins[ci:ci+1], all)
			})
		}
		for ri, r := range slip {
			p, ok := ref.ParsePath(r.path)
			if !ok || len(p) != 3 || !c.Thorough && (ri+wi)%8 != 0 {
				continue
			}
			w, wi, r := w, wi, r
			c.Case(mc.N("wallet %d version %s %08x", wi, r.coin, r.prv), func(t *mc.T) {
				k, ok := bip44.RegBip44CoinsPathCompToValMap[p[2]]
				if !ok {
					t.Failf("no coin for component %x", p[2])
				}
				run(t, w, pair{r.prv, r.pub}, p[1]-hard, []bip44.Coin{k}, all[:6])
			})
		}
	}
	// purposes x low coin types x versions
	for _, p := range []uint32{0, 1, 13, 43, 44, 45, 47, 48, 49, 54, 84, 85, 86, 87, 1852} {
		for vi, v := range pairs {
			p, v, vi := p, v, vi
			c.Case(mc.N("purpose %d version %08x", p, v.prv), func(t *mc.T) {
				var ks []bip44.Coin
				for _, x := range []uint32{0, 1, 2, 3, 5, 22, 60, 61, 118, 133, 144, 145} {
					if k, ok := bip44.RegBip44CoinsPathCompToValMap[hard+x]; ok && (v.prv == xprv || x < 2 || c.Thorough) {
						ks = append(ks, k)
					}
				}
				run(t, ws[int(p+uint32(vi))%len(ws)], v, p, ks, leaf)
			})
		}
	}
	// consecutive addresses of one account: leaves with every kind of leading byte
	for a := uint32(0); a < 4; a++ {
		for b := uint32(0); b < 512; b += 32 {
			a, b := a, b
			c.Case(mc.N("account %d, addresses %d..%d", a, b, b+31), func(t *mc.T) {
				var ls [][3]uint32
				for i := b; i < b+32; i++ {
					ls = append(ls, [3]uint32{a, i & 1, i})
				}
				run(t, ws[a], pair{xprv, xpub}, 44, coins[:1], ls)
			})
		}
	}
}
