package main

import (
	"crypto/sha256"
	"fmt"
	"strconv"

	"verifmc/ref"
)

// cornerScalars are small private keys found by an exhaustive search of
// 1..2^26 whose derived values end in a corner: leading (z) or trailing (t)
// zero bytes or leading 0xff bytes (f), one to three of them, of the public
// point's coordinates (x, y), the HASH160 (h), the Ethereum address (e), the
// checksum of the P2PKH address (k) and the SHA-256 of the public key (s).
var cornerScalars = []named{
	{"ef1", bi(16777373)}, {"ef1", bi(33554447)}, {"ef2", bi(13881)}, {"ef2", bi(50338978)}, {"ef3", bi(20043363)},
	{"ef3", bi(65920055)}, {"et1", bi(8388669)}, {"et1", bi(8388698)}, {"et2", bi(30033)}, {"et2", bi(50349673)},
	{"et3", bi(1063415)}, {"ez1", bi(50331716)}, {"ez1", bi(8388651)}, {"ez2", bi(33567449)}, {"ez2", bi(8394794)},
	{"ez3", bi(36600665)}, {"ez3", bi(55913357)}, {"hf1", bi(58720358)}, {"hf1", bi(8388747)}, {"hf2", bi(33613300)},
	{"hf2", bi(41986635)}, {"hf3", bi(26117719)}, {"hf3", bi(51764111)}, {"ht1", bi(16777296)}, {"ht1", bi(58720356)},
	{"ht2", bi(25190141)}, {"ht2", bi(41948640)}, {"ht3", bi(20734873)}, {"ht3", bi(43732910)}, {"hz1", bi(8388633)},
	{"hz1", bi(8388699)}, {"hz2", bi(50335940)}, {"hz2", bi(8390935)}, {"hz3", bi(10532067)}, {"hz3", bi(59332720)},
	{"kt1", bi(16777236)}, {"kt1", bi(58720338)}, {"kt2", bi(16787449)}, {"kt2", bi(16804308)}, {"kt3", bi(28533057)},
	{"kt3", bi(35185360)}, {"kz1", bi(50331693)}, {"kz1", bi(58720276)}, {"kz2", bi(58744457)}, {"kz2", bi(8409631)},
	{"sz1", bi(16777272)}, {"sz1", bi(58720270)}, {"sz2", bi(16788538)}, {"sz2", bi(915)}, {"sz3", bi(19604837)},
	{"sz3", bi(20518827)}, {"xf1", bi(58720335)}, {"xf1", bi(6)}, {"xf2", bi(58727297)}, {"xf2", bi(8394766)},
	{"xf3", bi(60585498)}, {"xf3", bi(9517485)}, {"xt1", bi(16777255)}, {"xt1", bi(58720266)}, {"xt2", bi(10916)},
	{"xt2", bi(50344707)}, {"xt3", bi(11234946)}, {"xt3", bi(1788644)}, {"yf1", bi(41943079)}, {"yf1", bi(50331741)},
	{"yf2", bi(58722440)}, {"yf2", bi(8389699)}, {"yf3", bi(50650196)}, {"yf3", bi(9918290)}, {"yt1", bi(16777359)},
	{"yt1", bi(41943077)}, {"yt2", bi(58728645)}, {"yt2", bi(8480)}, {"yt3", bi(462811)}, {"yt3", bi(8728922)},
}

func init() {
	type fn = func(p ref.Point) []byte
	pub := func(p ref.Point) []byte { c := ref.Compress(p); return c[:] }
	val := map[byte]fn{
		'x': func(p ref.Point) []byte { b := ref.Bytes32(p.X); return b[:] },
		'y': func(p ref.Point) []byte { b := ref.Bytes32(p.Y); return b[:] },
		'h': func(p ref.Point) []byte { return ref.Hash160(pub(p)) },
		'e': func(p ref.Point) []byte { return h2b(ref.EthAddr(p)) },
		'k': func(p ref.Point) []byte { return ref.DblSha4(append([]byte{0}, ref.Hash160(pub(p))...)) },
		's': func(p ref.Point) []byte { return sha(pub(p)) },
	}
	seen := map[string]int{}
	for i, s := range cornerScalars {
		b := val[s.name[0]](ref.BaseMult(s.v))
		n, _ := strconv.Atoi(s.name[2:])
		k := 0
		for k < len(b) {
			c := b[k]
			if s.name[1] == 't' {
				c = b[len(b)-1-k]
			}
			if s.name[1] == 'f' && c != 255 || s.name[1] != 'f' && c != 0 {
				break
			}
			k++
		}
		if k != n {
			panic(fmt.Sprintf("corner scalar %s %s: %x", s.name, s.v, b))
		}
		seen[s.name]++
		cornerScalars[i].name = fmt.Sprintf("%s#%d", s.name, seen[s.name])
	}
}

func sha(b []byte) []byte { s := sha256.Sum256(b); return s[:] }

// cornerPass are passphrases 0..599999 for which the seed of the all-zero
// 12-word mnemonic begins (l) or ends (t), or whose left half ends (m) or right
// half begins (n), with zero (z) or 0xff (f) bytes, found by exhaustive search.
var cornerPass = []strCase{
	{"tf1", "9"}, {"lz1", "53"}, {"lz1", "170"}, {"tf1", "204"}, {"nz1", "255"}, {"lf1", "364"},
	{"lf1", "387"}, {"nz1", "527"}, {"tz1", "575"}, {"tz1", "743"}, {"mz1", "784"}, {"mz1", "885"},
	{"tf2", "35592"}, {"tf2", "37909"}, {"tz2", "40039"}, {"lz2", "58685"}, {"mz2", "59326"}, {"nz2", "68583"},
	{"nz2", "80499"}, {"tz2", "80550"}, {"mz2", "113494"}, {"lz2", "134730"}, {"lf2", "148716"}, {"lf2", "175974"},
}
