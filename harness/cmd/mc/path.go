package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"strings"
	"unicode/utf8"

	"github.com/mearaj/bips/bip32"
	"github.com/mearaj/bips/util"
	"verifmc/mc"
	"verifmc/ref"
)

func init() {
	checks = append(checks,
		mc.Check{ID: "C19", Explore: c19, Rule: "every string of up to L tokens over an alphabet of path fragments, boundary numbers, white space and foreign characters (so all valid and near-valid shapes up to the bound); every boundary number and every number near a power of two or ten up to 21+ digits at every position of valid shapes; long paths; oracle: hand-written big-integer parser; histories of calls and repeated calls; one path spelled in every accepted way; paths with every one or two characters before, behind, around and inside, and with other separators; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process", Assum: []string{"white space means space, tab, line feed, form feed and carriage return; other Unicode spaces are not explored"}},
		mc.Check{ID: "C20", Explore: c20, Rule: "every valid path of up to N components over a boundary alphabet (with both ways of writing hardened numbers, with white space) and paths of 200..600 components x every depth byte x boundary and dense values; histories of edits on one path; oracle: list update; the same path in every spelling; edited paths with every one or two characters around and inside; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C21", Explore: c21, Rule: "every history of root-key settings and derivations up to the depth bound over 9 keys and 10 paths; every valid path of up to N components and long paths up to depth 255; root keys of every registered version and near-root shapes; kept results compared again after later calls; oracle: model derivation; histories of calls and repeated calls; wallet paths of every purpose, and one path in every spelling; paths with every one or two characters around and inside; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
		mc.Check{ID: "C22", Explore: c22, Rule: "every (start,end) over 18 boundary indexes x base keys (private, public, invalid, unregistered, deepest) x base paths; ranges of thousands of indexes; every history of range requests on one object up to the depth bound; oracle: model derivation of siblings; base paths in every spelling; base paths with every one or two characters around and inside; arguments that agree in a short hash, a sum, a set of bytes or the ends; every own operation after every operation of the library, alone in a process"},
	)
}

func pathCheck(t *mc.T, s string) {
	p := bip32.Path(s)
	want, ok := ref.ParsePath(s)
	var vals []uint32
	var err error
	var valid bool
	var str string
	var fm bip32.Path
	t.Try(fmt.Sprintf("path %.80q", s), func() {
		vals, err = p.ValuesAtDepth()
		valid = p.IsValid()
		str = p.String()
		fm = p.Formatted()
	})
	t.Step()
	// what becomes of bytes that are no text is left open
	if w := ref.Strip(s); utf8.ValidString(s) && (str != w || string(fm) != w) {
		t.Failf("formatting %.80q gives %.80q / %.80q, want %.80q", s, str, fm, w)
	}
	if !ok {
		t.Outcome("invalid")
		if err == nil || valid {
			t.Failf("%.120q accepted as %v (IsValid %v)", s, vals, valid)
		}
		return
	}
	t.Outcome("valid")
	if err != nil || !valid {
		t.Failf("%.120q refused: %v (IsValid %v)", s, err, valid)
	}
	if len(vals) != len(want) {
		t.Failf("%.120q parses to %v, want %v", s, vals, want)
	}
	for i := range want {
		if vals[i] != want[i] {
			t.Failf("%.120q parses to %v, want %v", s, vals, want)
		}
	}
}

func c19(c *mc.C) {
	famHistories(c, "path")
	alikeCases(c, "path")
	toks := []string{"m", "M", "/", "'", "0", "1", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", " ", "\n", "-", "h", "m/", "/0'", "/1", "/00"}
	max := 4
	if c.Thorough {
		max = 5
	}
	// pre-order over token strings; one case per prefix of length max-2
	var gen func(prefix string, n int, f func(string))
	gen = func(prefix string, n int, f func(string)) {
		f(prefix)
		if n == 0 {
			return
		}
		for _, k := range toks {
			gen(prefix+k, n-1, f)
		}
	}
	c.Case(mc.N("token strings of up to %d tokens", 1), func(t *mc.T) {
		gen("", 1, func(s string) { pathCheck(t, s); t.State(s) })
	})
	for _, a := range toks {
		for _, b := range toks {
			a, b := a, b
			c.Case(mc.N("token strings starting %q %q", a, b), func(t *mc.T) {
				gen(a+b, max-2, func(s string) { pathCheck(t, s); t.State(s) })
			})
		}
	}
	// after a valid start, deeper
	comps := []string{"/0'", "/0", "/2147483647'", "/2147483648'", "/2147483648", "/4294967295", "/4294967296", "/'", "/", "/0''", "/ 1 '", "0", "/01", "/1e3", "/0x1", "/+1", "/-0", "//0", "/1_0"}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	var walk func(s string, n int, f func(string))
	walk = func(s string, n int, f func(string)) {
		f(s)
		if n == 0 {
			return
		}
		for _, k := range comps {
			walk(s+k, n-1, f)
		}
	}
	for _, r := range []string{"m", "M"} {
		for _, a := range comps {
			r, a := r, a
			c.Case(mc.N("components after %s%s", r, a), func(t *mc.T) {
				walk(r+a, depth-1, func(s string) { pathCheck(t, s); t.State(s) })
			})
		}
	}
	for n := 0; n <= 64; n++ {
		n := n
		c.Case(mc.N("%d components in every spelling", n), func(t *mc.T) {
			for _, s := range formPaths(n) {
				pathCheck(t, s)
				pathCheck(t, s+"/4294967296")
				pathCheck(t, s+"/2147483648'")
				pathCheck(t, s+"/1'")
				pathCheck(t, s+"/")
				t.State(s)
			}
		})
	}
	white := strings.NewReplacer("\v", "?") // a vertical tab is neither here nor there
	around(c, "path", "m/44'/7", aroundToks, func(t *mc.T, s string) { pathCheck(t, white.Replace(s)) }, 1, 2, 4, 5, 6)
	grouped(c, "path", "m/44'/60'/0'/0/12", "/", func(t *mc.T, s string) { pathCheck(t, white.Replace(s)) })
	grouped(c, "path", "m/44'/60'/0'/0/12", "'", func(t *mc.T, s string) { pathCheck(t, white.Replace(s)) })
	around(c, "short path", "m", aroundToks, func(t *mc.T, s string) { pathCheck(t, white.Replace(s)) })
	around(c, "long path", "M/44'/60'/0'/0/12", aroundToks, func(t *mc.T, s string) { pathCheck(t, white.Replace(s)) }, 3, 8, 15)
	// numbers around every power of two and ten, every digit count
	var nums []string
	for k := uint(0); k <= 80; k++ {
		v := new(big.Int).Lsh(bi(1), k)
		for d := int64(-2); d <= 2; d++ {
			w := new(big.Int).Add(v, bi(d))
			if w.Sign() >= 0 {
				nums = append(nums, w.String())
			}
		}
	}
	for k := 1; k <= 30; k++ {
		nums = append(nums, strings.Repeat("9", k), "1"+strings.Repeat("0", k), strings.Repeat("0", k)+"7", strings.Repeat("0", k))
	}
	for _, m := range []int64{1, 2, 3, 255} { // numbers that reduce to small ones modulo powers of two
		for _, sh := range []uint{31, 32, 33, 63, 64, 65, 96, 128} {
			nums = append(nums, new(big.Int).Add(new(big.Int).Lsh(bi(1), sh), bi(m)).String(), new(big.Int).Add(new(big.Int).Lsh(bi(5), sh), bi(m)).String())
		}
	}
	nums = append(nums, strings.Repeat("9", 400), "1"+strings.Repeat("0", 400), strings.Repeat("0", 400)+"5")
	for _, n := range nums {
		n := n
		c.Case(mc.N("number %.60s (%d digits)", n, len(n)), func(t *mc.T) {
			for _, f := range []string{"m/%s", "m/%s'", "M/44'/%s'/0", "m/44'/0'/%s", "m/%s/%s", "m/%s'/%s'", "m/%s'/%s", "m/0/%s'", "m/ %s '", "m/0'/0'/0'/0/%s", "m/-%s", "m/+%s"} {
				s := strings.ReplaceAll(f, "%s", n)
				pathCheck(t, s)
				t.State(s)
			}
		})
	}
	// all small numbers, and those just below and above the limits
	top := 66000
	if c.Thorough {
		top = 1000000
	}
	for b := 0; b < top; b += 1000 {
		b := b
		c.Case(mc.N("numbers %d.., below and above 2^31 and 2^32", b), func(t *mc.T) {
			for i := b; i < b+1000; i++ {
				for _, v := range []uint64{uint64(i), 1<<31 - uint64(i), 1<<31 + uint64(i), 1<<32 - uint64(i), 1<<32 + uint64(i)} {
					pathCheck(t, fmt.Sprintf("m/%d", v))
					pathCheck(t, fmt.Sprintf("m/44'/%d'/%d", v, i))
				}
				t.State(i)
			}
		})
	}
	// every byte value at every position of a valid path
	base := "m/44'/0'/1'/0/12"
	for b := 0; b < 256; b++ {
		b := b
		if b == 0x0b || b == 0x85 || b == 0xa0 {
			continue
		}
		c.Case(mc.N("byte %02x anywhere", b), func(t *mc.T) {
			for p := 0; p <= len(base); p++ {
				pathCheck(t, base[:p]+string([]byte{byte(b)})+base[p:])
				if p < len(base) {
					pathCheck(t, base[:p]+string([]byte{byte(b)})+base[p+1:])
				}
			}
			t.State(b)
		})
	}
	// white space anywhere
	for _, sp := range []string{" ", "\t", "\n", "\r", "\f", "  \n", " \t\r\n\f "} {
		sp := sp
		c.Case(mc.N("white space %q anywhere", sp), func(t *mc.T) {
			for p := 0; p <= len(base); p++ {
				pathCheck(t, base[:p]+sp+base[p:])
				for q := p; q <= len(base); q++ {
					pathCheck(t, base[:p]+sp+base[p:q]+sp+base[q:])
				}
			}
			t.State(sp)
		})
	}
	for _, n := range []int{6, 10, 50, 127, 128, 254, 255, 256, 257, 300, 512, 1000} {
		n := n
		c.Case(mc.N("%d components", n), func(t *mc.T) {
			pathCheck(t, "m"+strings.Repeat("/1'", n))
			pathCheck(t, "m"+strings.Repeat("/1", n))
			pathCheck(t, "m"+strings.Repeat("/1'", n)+"/0")
			pathCheck(t, "m"+strings.Repeat("/1", n)+"/0'")
			pathCheck(t, "m"+strings.Repeat("/1", n)+"/4294967296")
			t.State(n)
		})
	}
	for _, s := range []string{"", " ", "\n", "m\n", "\nm", "m/0\n", "m/0\n\n", "m/0\x00", "x/0", "mm/0", "mM", "m/m", "44'/0'", "/44'", "m44'", "m/４", "m/٣", "m/0’", "m/0′", "m/0\"", "m/0H", "m/0h", "m.0", "m\\0", "m/0'/0'/", "m//0", "m/0/'", "m/'0", "ｍ/0"} {
		s := s
		c.Case(mc.N("form %q", s), func(t *mc.T) { pathCheck(t, s); t.State(s) })
	}
}

// validPaths lists every valid path of up to n components over the alphabet.
func validPaths(n int, hardA, softA []string) []string {
	var o []string
	var walk func(s string, k int, soft bool)
	walk = func(s string, k int, soft bool) {
		o = append(o, s)
		if k == 0 {
			return
		}
		if !soft {
			for _, h := range hardA {
				walk(s+"/"+h+"'", k-1, false)
			}
		}
		for _, v := range softA {
			walk(s+"/"+v, k-1, true)
		}
	}
	walk("m", n, false)
	return o
}

// formPaths are valid paths of n components in every spelling.
func formPaths(n int) (o []string) {
	for _, root := range []string{"m", "M", " m", "\tM\n"} {
		for hs := 0; hs <= n; hs += max(1, (n+2)/3) {
			for form := 0; form < 4; form++ {
				s := root
				for i := 0; i < n; i++ {
					v := uint32(i*i + 3*i + 1)
					if i%3 == 2 {
						v = hard - 1 - v
					}
					switch q := ""; form {
					case 0, 3:
						if i < hs {
							q = "'"
						}
						if form == 3 && i >= hs && i%2 == 1 {
							v |= hard
						}
						s += fmt.Sprintf("/%d%s", v, q)
					case 1:
						if i < hs {
							q = " '"
						}
						s += fmt.Sprintf(" / %d%s", v, q)
					case 2:
						if i < hs {
							q = "'"
						}
						s += fmt.Sprintf("/%0*d%s", 1+i%12, v, q)
					}
				}
				o = append(o, s)
			}
		}
	}
	return
}

func c20(c *mc.C) {
	famHistories(c, "path", "edit")
	alikeCases(c, "edit")
	n := 3
	if c.Thorough {
		n = 4
	}
	paths := validPaths(n, []string{"0", "44", "2147483647"}, []string{"0", "7", "2147483647", "2147483648", "4294967295"})
	paths = append(paths, "M/0'/1", " m / 44 ' / 0 ' / 1 ", "m/0'/1'/2'/3/4", "m/00'/007/0000000000000012", "m\n/1\t/2")
	for _, k := range []int{100, 127, 128, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600} {
		var sb, sh strings.Builder
		sb.WriteString("m")
		sh.WriteString("m")
		for i := 0; i < k; i++ {
			fmt.Fprintf(&sb, "/%d", i%7)
			fmt.Fprintf(&sh, "/%d'", i%5)
		}
		paths = append(paths, sb.String(), sh.String())
	}
	vals := []uint32{0, 1, 44, hard - 1, hard, hard + 1, hard + 44, 0xffffffff}
	// many values in small paths
	var many []uint32
	for k := uint(0); k < 32; k++ {
		for d := uint32(0); d < 3; d++ {
			many = append(many, 1<<k+d-1, hard|(1<<k+d-1))
		}
	}
	for i := uint32(0); i < 1100; i++ {
		many = append(many, i, hard+i, hard-i, -i)
	}
	for _, s := range []string{"m/3", "m/3'", "m/44'/0'/0'/0/0", "m/1/2", "m/1'/2'/3", "M/1'/2'", " m / 5' / 6 "} {
		for b := 1; b < 6; b++ {
			s, b := s, b
			c.Case(mc.N("many values at component %d of %q", b, s), func(t *mc.T) {
				pv, _ := ref.ParsePath(s)
				for _, v := range many {
					replaceCheck(t, s, pv, b, v)
					t.State(s, b, v)
				}
			})
		}
	}
	for n := 0; n <= 24; n++ {
		paths = append(paths, formPaths(n)...)
	}
	for pi, s := range paths {
		pi, s := pi, s
		c.Case(mc.N("path#%d %.60q", pi, s), func(t *mc.T) {
			p := bip32.Path(s)
			pv, ok := ref.ParsePath(s)
			if !ok {
				t.Failf("model refuses %q", s)
			}
			for b := 0; b < 256; b++ {
				if len(pv) < 100 && b > len(pv)+3 && b < 253 && b%16 != 0 {
					continue
				}
				var v uint32
				var err error
				t.Try("ValueAtDepth", func() { v, err = p.ValueAtDepth(byte(b)) })
				t.Step()
				if b < len(pv) {
					if err != nil || v != pv[b] {
						t.Failf("component %d of %.60q: %d, %v; want %d", b, s, v, err, pv[b])
					}
				} else if err == nil {
					t.Failf("component %d of %.60q (%d components) exists: %d", b, s, len(pv)-1, v)
				}
				for vi, val := range vals {
					if len(pv) > 100 && (vi%3 != 0 || b > 4 && b < 250 && b%32 != 0) && !c.Thorough {
						continue
					}
					replaceCheck(t, s, pv, b, val)
				}
			}
			t.State(s)
		})
	}
	around(c, "edited path", "m/44'/7", aroundToks, func(t *mc.T, s string) {
		if strings.Contains(s, "\v") {
			return
		}
		pv, ok := ref.ParsePath(s)
		v, err := bip32.Path(s).ValueAtDepth(2)
		t.Step()
		if !ok || len(pv) < 3 {
			if err == nil {
				t.Failf("component 2 of %q: %d", s, v)
			}
		} else if err != nil || v != pv[2] {
			t.Failf("component 2 of %q: %d, %v; want %d", s, v, err, pv[2])
		}
		if !ok {
			if np, err := bip32.Path(s).ReplaceValueAtDepth(1, 3); err == nil {
				t.Failf("replaced component 1 of %q: %q", s, np)
			}
			return
		}
		replaceCheck(t, s, pv, 1, hard+3)
	}, 1, 5, 6)
	for _, s := range []string{"", "m/", "x", "m/0/0'", "m/4294967296", "m/2147483648'", "m/0''"} {
		s := s
		c.Case(mc.N("invalid path %q", s), func(t *mc.T) {
			for b := 0; b < 256; b += 1 {
				if v, err := bip32.Path(s).ValueAtDepth(byte(b)); err == nil {
					t.Failf("component %d of %q: %d", b, s, v)
				}
				if np, err := bip32.Path(s).ReplaceValueAtDepth(byte(b), 0); err == nil {
					t.Failf("replaced component %d of %q: %q", b, s, np)
				}
				t.Step()
			}
			t.State(s)
		})
	}
	// edits chained: every sequence of two (three) edits
	edits := []struct {
		b byte
		v uint32
	}{{1, hard}, {1, 5}, {2, 7}, {2, hard + 9}, {3, 0xffffffff}, {3, 0}, {0, 1}, {4, 2}, {255, 1}}
	for _, s := range []string{"m/44'/0'/0'", "m/0/1/2", "m/44'/0/1", "m/1'/2'/3'/4"} {
		for a := range edits {
			for b := range edits {
				s, a, b := s, a, b
				c.Case(mc.N("edits %d,%d,* of %s", a, b, s), func(t *mc.T) {
					for d := range edits {
						cur := s
						for _, e := range []int{a, b, d} {
							pv, ok := ref.ParsePath(cur)
							if !ok {
								t.Failf("edit produced %q", cur)
							}
							cur = replaceCheck(t, cur, pv, int(edits[e].b), edits[e].v)
						}
						t.State(cur)
					}
				})
			}
		}
	}
}

// replaceCheck checks one edit and returns the path to go on with.
func replaceCheck(t *mc.T, s string, pv []uint32, b int, val uint32) string {
	p := bip32.Path(s)
	var np bip32.Path
	var err error
	t.Try("ReplaceValueAtDepth", func() { np, err = p.ReplaceValueAtDepth(byte(b), val) })
	t.Step()
	exists := b > 0 && b < len(pv)
	must := false
	if exists { // the canonical edit is a valid path
		cs := strings.Split(ref.Strip(s), "/")
		cs[b] = ref.Comp(val)
		_, must = ref.ParsePath(strings.Join(cs, "/"))
	}
	if err != nil {
		t.Outcome("edit refused")
		if must {
			t.Failf("replacing component %d of %.60q by %d failed: %v", b, s, val, err)
		}
		if np != p && np != "" && string(np) != ref.Strip(s) {
			t.Failf("replacing component %d of %.60q by %d: error %v, but path %.60q", b, s, val, err, np)
		}
		return s
	}
	t.Outcome("edited")
	if !exists {
		t.Failf("replacing component %d of %.60q (%d components) by %d gave %.60q", b, s, len(pv)-1, val, np)
	}
	nv, ok := ref.ParsePath(string(np))
	if !ok || !np.IsValid() {
		t.Failf("replacing component %d of %.60q by %d gave the invalid path %.60q", b, s, val, np)
	}
	if len(nv) != len(pv) {
		t.Failf("replacing component %d of %.60q by %d gave %.60q", b, s, val, np)
	}
	for i := range pv {
		w := pv[i]
		if i == b {
			w = val
		}
		if nv[i] != w {
			t.Failf("replacing component %d of %.60q by %d gave %.60q: component %d is %d", b, s, val, np, i, nv[i])
		}
	}
	return string(np)
}

func c21(c *mc.C) {
	famHistories(c, "derive")
	alikeCases(c, "derive")
	m1, _ := ref.Master(detBytes("c21a", 32), xprv, ref.HMAC512)
	m2, _ := ref.Master(detBytes("c21b", 32), xprv, ref.HMAC512)
	m3 := m1 // same payload, other version
	m3.Ver = 0x04b2430c
	m4 := m1 // same payload, other chain code
	m4.CC = m2.CC
	ch, _ := m1.Child(hard, ref.HMAC512)
	off := ref.XKey{Ver: xprv, CC: det32("bad")} // scalar zero
	over := prvKey(xprv, ref.N, det32("bad"))
	unreg := m1
	unreg.Ver = 0x12345678
	keys := []struct {
		name string
		k    ref.XKey
		ok   bool
	}{{"master1", m1, true}, {"master2", m2, true}, {"zprv", m3, true}, {"mixed", m4, true}, {"public", m1.Neuter(xpub), false}, {"child", ch, false}, {"zero", ref.XKey{}, false}, {"scalar0", off, false}, {"scalarN", over, false}, {"unregistered", unreg, false}}
	paths := []string{"m", "M/0", "m/0'", "m/44'/0'/0'/0/0", " m / 1 ' / 2 ", "m/2147483648", "m/4294967295/0", "", "m/0/0'", "m/4294967296"}
	derive := func(t *mc.T, g *util.Generator, ki int, s string) []util.KeyPath {
		var res []util.KeyPath
		var err error
		t.Try("DeriveBIP32Result", func() { res, err = g.DeriveBIP32Result(bip32.Path(s)) })
		t.Step()
		idx, ok := ref.ParsePath(s)
		if ki < 0 || !keys[ki].ok || !ok {
			if ki >= 0 && keys[ki].name == "unregistered" && ok && len(idx) == 1 {
				return nil // no step taken: not constrained
			}
			t.Outcome("refused")
			if err == nil || len(res) != 0 {
				t.Failf("derivation of %q from key %d gave %d entries, err %v", s, ki, len(res), err)
			}
			if res, err = g.DeriveBIP32Result(bip32.Path(s)); err == nil || len(res) != 0 {
				t.Failf("derivation of %q from key %d, refused at first, then gave %d entries, err %v", s, ki, len(res), err)
			}
			return nil
		}
		checkPathResult(t, keys[ki].k, idx[1:], ref.HMAC512, res, err)
		return res
	}
	// histories: set/derive sequences
	type op struct {
		set bool
		i   int
	}
	var ops []op
	for i := range keys {
		ops = append(ops, op{true, i})
	}
	for _, i := range []int{0, 2, 3, 5, 8} {
		ops = append(ops, op{false, i})
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var walk func(seq []op)
	walk = func(seq []op) {
		if len(seq) == depth {
			seq = append([]op(nil), seq...)
			c.Case(mc.N("history %v", seq), func(t *mc.T) {
				var g util.Generator
				cur := -1
				type kept struct {
					got, copy []util.KeyPath
				}
				var ks []kept
				for _, o := range append(seq, op{false, 3}, op{false, 1}) {
					if o.set {
						cur = o.i
						g.SetRootKey(toKey(keys[cur].k))
					} else {
						r := derive(t, &g, cur, paths[o.i])
						ks = append(ks, kept{r, append([]util.KeyPath(nil), r...)})
					}
					t.State(fmt.Sprint(cur, o))
				}
				for _, k := range ks {
					if !sameKPs(k.got, k.copy) {
						t.Failf("an earlier result changed")
					}
				}
				if cur >= 0 && [78]byte(*g.RootKey()) != keys[cur].k.Bytes() {
					t.Failf("root key changed to %x", *g.RootKey())
				}
			})
			return
		}
		for _, o := range ops {
			walk(append(seq, o))
		}
	}
	walk(nil)
	for pi := range paths {
		for ki := range keys {
			pi, ki := pi, ki
			c.Case(mc.N("key %s path %q", keys[ki].name, paths[pi]), func(t *mc.T) {
				var g util.Generator
				g.SetRootKey(toKey(keys[ki].k))
				derive(t, &g, ki, paths[pi])
				t.State(pi, ki)
			})
		}
	}
	around(c, "derived path", "m/7'/5", aroundToks, func(t *mc.T, s string) {
		if strings.Contains(s, "\v") {
			return
		}
		var g util.Generator
		g.SetRootKey(toKey(m2))
		derive(t, &g, 1, s)
	}, 1, 4)
	c.Case(mc.N("unset key"), func(t *mc.T) {
		for _, p := range paths {
			var g util.Generator
			derive(t, &g, -1, p)
		}
		t.State("unset")
	})
	n := 3
	if c.Thorough {
		n = 4
	}
	for _, s := range validPaths(n, []string{"0", "44", "2147483647"}, []string{"0", "1", "2147483647", "2147483648", "4294967295"}) {
		s := s
		c.Case(mc.N("path %s", s), func(t *mc.T) {
			var g util.Generator
			g.SetRootKey(toKey(m2))
			derive(t, &g, 1, s)
			t.State(s)
		})
	}
	// the paths wallets use
	for pi, p := range purposeIdx {
		for ci, cn := range purposeIdx {
			if p < hard || cn < hard || !c.Thorough && cn > hard+2 && cn != hard+60 && (pi+ci)%16 != 0 {
				continue
			}
			p, cn := p, cn
			c.Case(mc.N("wallet path m/%d'/%d'", p-hard, cn-hard), func(t *mc.T) {
				for _, v := range pairs {
					if v.prv != xprv && (int(v.prv)+int(p+cn))%3 != 0 {
						continue
					}
					k := m1
					k.Ver = v.prv
					var g util.Generator
					g.SetRootKey(toKey(k))
					path := []uint32{p, cn, hard, 0, 1}
					res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
					t.Step()
					checkPathResult(t, k, path, ref.HMAC512, res, err)
					t.State(v.prv, p, cn)
				}
			})
		}
	}
	for _, cn := range []uint32{hard, hard + 1, hard + 2, hard + 60} {
		cn := cn
		c.Case(mc.N("wallet path coin %d, fixed purposes", cn-hard), func(t *mc.T) {
			for _, p := range []uint32{44, 45, 48, 49, 84, 86, 1852} {
				k := m1
				var g util.Generator
				g.SetRootKey(toKey(k))
				path := []uint32{hard + p, cn, hard + 1, 1, 0}
				res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
				t.Step()
				checkPathResult(t, k, path, ref.HMAC512, res, err)
				t.State(p, cn)
			}
		})
	}
	for n := 0; n <= 20; n++ {
		for i, s := range formPaths(n) {
			if n > 6 && !c.Thorough && i%4 != n%4 {
				continue
			}
			s := s
			c.Case(mc.N("spelling %q", s), func(t *mc.T) {
				var g util.Generator
				g.SetRootKey(toKey(m2))
				derive(t, &g, 1, s)
				t.State(s)
			})
		}
	}
	// roots in many shapes
	rootPaths := [][]uint32{{0, 1}, {hard + 44, hard + 60, hard, 1, 7}, {0xffffffff, hard - 1}, {}}
	for si, s := range allScalars() {
		for ci, cc := range ccDense {
			if !c.Thorough && (si+ci)%4 != 0 {
				continue
			}
			s, cc, si, ci := s, cc, si, ci
			c.Case(mc.N("root scalar %s chain code #%d", s.name, ci), func(t *mc.T) {
				k := prvKey(pairs[(si+ci)%len(pairs)].prv, s.v, cc)
				path := rootPaths[(si+ci/4)%len(rootPaths)]
				var g util.Generator
				g.SetRootKey(toKey(k))
				res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
				t.Step()
				checkPathResult(t, k, path, ref.HMAC512, res, err)
				t.State(s.name, ci)
			})
		}
	}
	// long paths, down to the last depth and one below it
	for _, n := range []int{6, 16, 64, 127, 128, 200, 254, 255, 256, 257, 300} {
		for _, h := range []uint32{0, hard} {
			n, h := n, h
			c.Case(mc.N("%d components from %d", n, h), func(t *mc.T) {
				path := make([]uint32, n)
				for i := range path {
					path[i] = h + uint32(i*i%97)
				}
				var g util.Generator
				g.SetRootKey(toKey(m1))
				res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
				t.Step()
				checkPathResult(t, m1, path, ref.HMAC512, res, err)
				t.State(n, h)
			})
		}
	}
	// versions
	for _, p := range pairs {
		p := p
		c.Case(mc.N("version %08x", p.prv), func(t *mc.T) {
			k := m1
			k.Ver = p.prv
			var g util.Generator
			g.SetRootKey(toKey(k))
			path := []uint32{hard + 44, hard, hard, 0, 5}
			res, err := g.DeriveBIP32Result(bip32.Path(ref.Label("m", path)))
			t.Step()
			checkPathResult(t, k, path, ref.HMAC512, res, err)
			t.State(p.prv)
		})
	}
}

func c22(c *mc.C) {
	famHistories(c, "range")
	alikeCases(c, "range")
	m, _ := ref.Master(detBytes("c22", 32), xprv, ref.HMAC512)
	ch, _ := m.Child(hard+44, ref.HMAC512)
	d254, d255 := ch, ch
	d254.Depth, d255.Depth = 254, 255
	unreg := m
	unreg.Ver = 0x12345678
	crossed := m
	crossed.Ver = xpub
	keys := []struct {
		name  string
		k     ref.XKey
		valid bool
	}{{"master", m, true}, {"child", ch, true}, {"public", m.Neuter(xpub), true}, {"public child", ch.Neuter(xpub), true}, {"depth254", d254, true}, {"depth255", d255, true},
		{"zero", ref.XKey{}, false}, {"scalarN", prvKey(xprv, ref.N, det32("x")), false}, {"crossed", crossed, false}, {"unregistered", unreg, true},
		{"bad prefix", func() ref.XKey { k := m.Neuter(xpub); k.Key[0] = 5; return k }(), false}, {"off curve", func() ref.XKey { k := m.Neuter(xpub); b := ref.Bytes32(bi(5)); copy(k.Key[1:], b[:]); return k }(), false}}
	paths := []string{"m", "m/44'/0'", " M / 7 ", "m/0/1", "", "m/0/0'", "m/4294967296", "m/2147483648", "m/4294967295/0", "m/0'/2147483647'/2147483647'", "m/44'/2147483649"}
	bounds := []uint32{0, 1, 2, 3, 4, 255, 256, 257, 65535, 65537, hard - 2, hard - 1, hard, hard + 1, hard + 2, 0xfffffffd, 0xfffffffe, 0xffffffff}
	one := func(t *mc.T, r *util.KeyPathRange, ki, pi int, start, end uint32) {
		old := append([]util.KeyPath(nil), r.KeyPaths...)
		r.StartIndex, r.EndIndex = start, end
		r.Key = toKey(keys[ki].k)
		r.Path = bip32.Path(paths[pi])
		var err error
		t.Try("GenerateRange", func() { err = r.GenerateRange() })
		t.Step()
		_, pok := ref.ParsePath(paths[pi])
		if !pok || !keys[ki].valid {
			t.Outcome("range refused")
			if err == nil || !sameKPs(old, r.KeyPaths) {
				t.Failf("range [%d,%d) over key %s path %q: err=%v, %d entries", start, end, keys[ki].name, paths[pi], err, len(r.KeyPaths))
			}
			if err = r.GenerateRange(); err == nil || !sameKPs(old, r.KeyPaths) {
				t.Failf("range [%d,%d) over key %s path %q, refused at first, then: err=%v, %d entries", start, end, keys[ki].name, paths[pi], err, len(r.KeyPaths))
			}
			return
		}
		k := keys[ki].k
		if _, ok := pubOf[k.Ver]; !ok && !isPub[k.Ver] {
			if err == nil || !sameKPs(old, r.KeyPaths) {
				t.Failf("range over an unregistered version: err=%v, %d entries", err, len(r.KeyPaths))
			}
			return
		}
		checkRange(t, k, paths[pi], start, end, ref.HMAC512, old, r.KeyPaths, err)
		if r.StartIndex != start || r.EndIndex != end || r.Key != toKey(k) || string(r.Path) != paths[pi] {
			t.Failf("GenerateRange changed its request")
		}
	}
	for n := 0; n <= 30; n++ {
		n := n
		c.Case(mc.N("base paths of %d components in every spelling", n), func(t *mc.T) {
			for i, p := range formPaths(n) {
				k := ch
				if i%2 == 1 {
					k = m
				}
				st := []uint32{0, 9, hard - 1, hard + 1}[i%4]
				r := util.KeyPathRange{StartIndex: st, EndIndex: st + 2, KeyPath: util.KeyPath{Path: bip32.Path(p), Key: toKey(k)}}
				err := r.GenerateRange()
				t.Step()
				checkRange(t, k, p, st, st+2, ref.HMAC512, nil, r.KeyPaths, err)
				t.State(p, st)
			}
		})
	}
	around(c, "base path", "m/7'/5", aroundToks, func(t *mc.T, s string) {
		if strings.Contains(s, "\v") {
			return
		}
		old := []util.KeyPath{{Path: "m/9", Key: toKey(m)}}
		r := util.KeyPathRange{StartIndex: 3, EndIndex: 5, KeyPath: util.KeyPath{Path: bip32.Path(s), Key: toKey(ch)}, KeyPaths: old}
		var err error
		t.Try("GenerateRange", func() { err = r.GenerateRange() })
		t.Step()
		if _, ok := ref.ParsePath(s); !ok {
			if err == nil || !sameKPs(old, r.KeyPaths) {
				t.Failf("range over base path %q: err=%v, %d entries", s, err, len(r.KeyPaths))
			}
			return
		}
		checkRange(t, ch, s, 3, 5, ref.HMAC512, old, r.KeyPaths, err)
	}, 1, 4)
	span := uint32(5)
	for _, s := range bounds {
		for _, e := range bounds {
			if e > s && e-s > span {
				continue
			}
			for ki := range keys {
				for pi := range paths {
					if ki > 3 && pi > 1 && pi != 5 {
						continue
					}
					s, e, ki, pi := s, e, ki, pi
					c.Case(mc.N("range [%d,%d) key %s path %q", s, e, keys[ki].name, paths[pi]), func(t *mc.T) {
						var r util.KeyPathRange
						one(t, &r, ki, pi, s, e)
						r.KeyPaths = []util.KeyPath{{Path: "m/5", Key: toKey(m)}}
						one(t, &r, ki, pi, s, e)
						t.State(s, e, ki, pi)
					})
				}
			}
		}
	}
	big := []uint32{20, 100, 300, 1030, 4100}
	if c.Thorough {
		big = append(big, 20000, 70000)
	}
	for _, n := range big {
		for _, s := range []uint32{0, hard - n/2, hard, 0xffffffff - n} {
			for _, ki := range []int{0, 1, 3} {
				if n > 1030 && ki == 1 || n > 5000 && (ki > 0 || s != 0) {
					continue
				}
				n, s, ki := n, s, ki
				c.Case(mc.N("range of %d from %d key %s", n, s, keys[ki].name), func(t *mc.T) {
					var r util.KeyPathRange
					one(t, &r, ki, 1, s, s+n)
					t.State(n, s, ki)
				})
			}
		}
	}
	// longer than any limit of 16 bits, against one derivation per index
	for _, s := range []uint32{0, hard - 33000} {
		s := s
		c.Case(mc.N("range of 66000 from %d", s), func(t *mc.T) {
			r := util.KeyPathRange{StartIndex: s, EndIndex: s + 66000, KeyPath: util.KeyPath{Path: "m/44'", Key: toKey(m)}}
			if err := r.GenerateRange(); err != nil || len(r.KeyPaths) != 66000 {
				t.Failf("range of 66000 from %d: %d entries, %v", s, len(r.KeyPaths), err)
			}
			k := toKey(m)
			for n, e := range r.KeyPaths {
				i := s + uint32(n)
				l := fmt.Sprintf("m/44'/%d", i&^hard)
				if i >= hard {
					l += "'"
				}
				t.Step()
				if string(e.Path) != l || binary.BigEndian.Uint32(e.Key[9:]) != i {
					t.Failf("entry %d of the range from %d: %s, child number %x", n, s, e.Path, e.Key[9:13])
				}
				if n%64 == 0 || n > 65500 {
					if w, err := k.NewChildKey(i); err != nil || w != e.Key {
						t.Failf("entry %d of the range from %d differs from the child", n, s)
					}
				}
			}
			t.State("66000", s)
		})
	}
	// histories on one object
	type req struct {
		ki, pi     int
		start, end uint32
	}
	reqs := []req{{0, 0, 0, 3}, {1, 1, 1, 3}, {2, 0, 0, 2}, {3, 1, hard - 1, hard + 1}, {0, 0, 3, 3}, {0, 0, 5, 1}, {6, 0, 0, 2}, {0, 4, 0, 2}, {0, 5, 0, 2}, {5, 0, 0, 1}, {0, 1, hard - 1, hard + 2}, {1, 0, 0, 3}}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var walk func(seq []int)
	walk = func(seq []int) {
		if len(seq) == depth {
			seq = append([]int(nil), seq...)
			c.Case(mc.N("history %v", seq), func(t *mc.T) {
				var r util.KeyPathRange
				var kept, copies [][]util.KeyPath
				for _, i := range seq {
					q := reqs[i]
					one(t, &r, q.ki, q.pi, q.start, q.end)
					kept = append(kept, r.KeyPaths)
					copies = append(copies, append([]util.KeyPath(nil), r.KeyPaths...))
					t.State(fmt.Sprint(seq, i))
				}
				for i := range kept {
					if !sameKPs(kept[i], copies[i]) {
						t.Failf("an earlier result changed")
					}
				}
			})
			return
		}
		for i := range reqs {
			walk(append(seq, i))
		}
	}
	walk(nil)
}
