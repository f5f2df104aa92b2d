// Command mc explores the properties of mearaj/bips.
package main

import (
	"bytes"
	"crypto/hmac"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"github.com/mearaj/bips/bip32"
	"verifmc/mc"
	"verifmc/ref"
)

const repo = "/repo"

// toKey / fromKey bind the abstract extended key to the implementation's type.
func toKey(x ref.XKey) bip32.Key   { return bip32.Key(x.Bytes()) }
func fromKey(k bip32.Key) ref.XKey { return ref.ParseX([78]byte(k)) }

type pair struct{ prv, pub uint32 }

// slipRow is one row of the shipped SLIP-0132 table.
type slipRow struct {
	coin             string
	pub, prv         uint32
	pubName, prvName string
	enc              []string
	path             string
}

func slip132() []slipRow {
	b, err := os.ReadFile(repo + "/bip32/slip-0132.md")
	if err != nil {
		panic(err)
	}
	re := regexp.MustCompile("^(\\S.*?)\\s+`0x([0-9a-fA-F]{8})` - `(\\w+)`\\s+`0x([0-9a-fA-F]{8})` - `(\\w+)`\\s+(\\S.*?)\\s+(\\S+)\\s*$")
	var o []slipRow
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		h := func(s string) uint32 {
			v, err := strconv.ParseUint(s, 16, 32)
			if err != nil {
				panic(err)
			}
			return uint32(v)
		}
		r := slipRow{coin: m[1], pub: h(m[2]), pubName: m[3], prv: h(m[4]), prvName: m[5], path: m[7]}
		for _, e := range strings.Split(strings.TrimPrefix(m[6], "Multi-signature "), " or ") {
			r.enc = append(r.enc, map[string]string{"P2WPKH in P2SH": "P2WPKHInP2SH", "P2WSH in P2SH": "P2WSHInP2SH"}[e])
			if r.enc[len(r.enc)-1] == "" {
				r.enc[len(r.enc)-1] = e
			}
		}
		if r.path == "-" {
			r.path = ""
		}
		o = append(o, r)
	}
	if len(o) < 20 {
		panic("SLIP-0132 table not understood")
	}
	return o
}

var slip = slip132()

// pairs are the distinct registered (private, public) version pairs, in table order.
var pairs = func() []pair {
	var o []pair
	seen := map[pair]bool{}
	for _, r := range slip {
		p := pair{r.prv, r.pub}
		if !seen[p] {
			seen[p] = true
			o = append(o, p)
		}
	}
	return o
}()

var pubOf = func() map[uint32]uint32 {
	m := map[uint32]uint32{}
	for _, p := range pairs {
		m[p.prv] = p.pub
	}
	return m
}()
var isPub = func() map[uint32]bool {
	m := map[uint32]bool{}
	for _, p := range pairs {
		m[p.pub] = true
	}
	return m
}()

const (
	xprv = 0x0488ade4
	xpub = 0x0488b21e
	hard = ref.HardBit
)

func h2b(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func bi(v int64) *big.Int { return big.NewInt(v) }

// detBytes expands a label into n bytes, deterministically.
func detBytes(label string, n int) []byte {
	var o []byte
	for i := 0; len(o) < n; i++ {
		h := ref.HMAC512([]byte("det"), []byte(label+"#"+strconv.Itoa(i)))
		o = append(o, h[:]...)
	}
	return o[:n]
}

func det32(label string) (o [32]byte) { copy(o[:], detBytes(label, 32)); return }

// scalar is a named private key value.
type named struct {
	name string
	v    *big.Int
}

// scalars are the boundary alphabet for private keys: small values, the group
// order's neighbourhood, and every count of leading zero bytes.
func scalars() []named {
	o := []named{{"1", bi(1)}, {"2", bi(2)}, {"3", bi(3)}, {"255", bi(255)}, {"256", bi(256)},
		{"n-1", new(big.Int).Sub(ref.N, bi(1))}, {"n-2", new(big.Int).Sub(ref.N, bi(2))},
		{"n/2", new(big.Int).Rsh(ref.N, 1)}, {"2^255", new(big.Int).Lsh(bi(1), 255)}, {"2^128", new(big.Int).Lsh(bi(1), 128)}}
	for z := 0; z < 32; z++ {
		b := detBytes("scalar"+strconv.Itoa(z), 32)
		for i := 0; i < z; i++ {
			b[i] = 0
		}
		if b[z] == 0 || b[z] == 0xff {
			b[z] = 0x5a
		}
		o = append(o, named{fmt.Sprintf("z%d", z), new(big.Int).SetBytes(b)})
	}
	return o
}

func prvKey(ver uint32, s *big.Int, cc [32]byte) ref.XKey {
	k := ref.XKey{Ver: ver, CC: cc}
	b := ref.Bytes32(s)
	copy(k.Key[1:], b[:])
	return k
}

var edgeIdx = []uint32{0, 1, 2, 3, 255, 256, 65535, 65536, 1 << 24, hard - 2, hard - 1, hard, hard + 1, hard + 2, hard + 44, hard + 256, hard + 65536, 0xfffffffe, 0xffffffff}

// purposeIdx are the indexes wallets give a meaning to: purposes and coin types,
// hardened and plain.
var purposeIdx = func() (o []uint32) {
	for _, v := range []uint32{3, 10, 11, 13, 16, 32, 39, 43, 44, 45, 46, 47, 48, 49, 50, 60, 61, 84, 85, 86, 87, 118, 133, 141, 144, 145, 149, 157, 174, 175, 195, 354, 501, 637, 780, 784, 888, 1110, 1237, 1638, 1729, 1815, 1852, 5757, 7777, 9999, 12381, 83696968, 0x80000000 - 44} {
		o = append(o, hard+v, v)
	}
	return
}()

// diffKey explains the difference between a derived key and the model's.
func diffKey(got bip32.Key, want ref.XKey) string {
	w := want.Bytes()
	if [78]byte(got) == w {
		return ""
	}
	g := fromKey(got)
	var d []string
	if g.Ver != want.Ver {
		d = append(d, fmt.Sprintf("version %08x want %08x", g.Ver, want.Ver))
	}
	if g.Depth != want.Depth {
		d = append(d, fmt.Sprintf("depth %d want %d", g.Depth, want.Depth))
	}
	if g.FP != want.FP {
		d = append(d, fmt.Sprintf("fingerprint %x want %x", g.FP, want.FP))
	}
	if g.CN != want.CN {
		d = append(d, fmt.Sprintf("child number %x want %x", g.CN, want.CN))
	}
	if g.CC != want.CC {
		d = append(d, fmt.Sprintf("chain code %x want %x", g.CC, want.CC))
	}
	if g.Key != want.Key {
		d = append(d, fmt.Sprintf("key %x want %x", g.Key, want.Key))
	}
	return strings.Join(d, ", ")
}

// child runs NewChildKey on a copy and demands the parent stays untouched.
func child(t *mc.T, k ref.XKey, idx uint32) (bip32.Key, error) {
	kk := toKey(k)
	c, err := kk.NewChildKey(idx)
	if [78]byte(kk) != k.Bytes() {
		t.Failf("NewChildKey(%d) changed its parent: %x -> %x", idx, k.Bytes(), kk)
	}
	return c, err
}

// childRef compares one derivation step with the model; returns the model child.
func childRef(t *mc.T, k ref.XKey, idx uint32) (ref.XKey, error) {
	w, werr := k.Child(idx, ref.HMAC512)
	g, err := child(t, k, idx)
	t.Step()
	if werr != nil {
		if err == nil {
			t.Failf("NewChildKey(%d) of %s succeeded, model says: %v", idx, k.B58(), werr)
		}
		return w, werr
	}
	if err != nil {
		t.Failf("NewChildKey(%d) of %s failed: %v", idx, k.B58(), err)
	}
	if d := diffKey(g, w); d != "" {
		t.Failf("NewChildKey(%d) of %s: %s", idx, k.B58(), d)
	}
	return w, nil
}

// The environment's HMAC-SHA512 is a function: a replaced digest stays replaced
// for the life of the process, and no query is ever given two digests, so code
// that remembers hash results is not misled.
var replaced = map[string]*replacement{}

type replacement struct {
	digest []byte
	asked  bool
}

// inject makes HMAC-SHA512(key,msg) return digest, runs f and reports whether
// the code under test asked for it meanwhile (fired) or before.
func inject(key, msg, digest []byte, f func()) (fired, before bool) {
	q := string(key) + "|" + string(msg)
	r := replaced[q]
	if r == nil {
		r = &replacement{digest: digest}
		replaced[q] = r
	}
	if !bytes.Equal(r.digest, digest) {
		panic("one query, two digests")
	}
	before, r.asked = r.asked, false
	hmac.VerifHook = func(k, m []byte) ([]byte, bool) {
		if r := replaced[string(k)+"|"+string(m)]; r != nil {
			r.asked = true
			return r.digest, true
		}
		return nil, false
	}
	f()
	fired = r.asked
	r.asked = r.asked || before
	return
}

// unique labels a case's own keys, so that its queries are its own.
func unique(parts ...any) [32]byte { return det32("own " + fmt.Sprint(parts...)) }

// injMac is the model's view of the same environment.
func injMac(key, msg, digest []byte) ref.Mac {
	return func(k, m []byte) [64]byte {
		if bytes.Equal(k, key) && bytes.Equal(m, msg) {
			return [64]byte(digest)
		}
		return ref.HMAC512(k, m)
	}
}

func digest(il *big.Int, ir [32]byte) []byte {
	b := ref.Bytes32(il)
	return append(append([]byte(nil), b[:]...), ir[:]...)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var checks []mc.Check

func main() {
	if p := os.Getenv("MC_PROBE"); p != "" {
		probes[p](os.Args[1:])
		return
	}
	mc.Main(checks)
}

func h2i(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
