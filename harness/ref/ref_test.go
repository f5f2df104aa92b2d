package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/hex"
	"math/big"
	"testing"

	"golang.org/x/crypto/pbkdf2"
)

func TestVectors(t *testing.T) {
	type step struct {
		idx      uint32
		prv, pub string
	}
	const H = HardBit
	vs := []struct {
		seed     string
		prv, pub string
		steps    []step
	}{
		{"000102030405060708090a0b0c0d0e0f", "xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi", "xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8",
			[]step{{H, "xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7", "xpub68Gmy5EdvgibQVfPdqkBBCHxA5htiqg55crXYuXoQRKfDBFA1WEjWgP6LHhwBZeNK1VTsfTFUHCdrfp1bgwQ9xv5ski8PX9rL2dZXvgGDnw"},
				{1, "xprv9wTYmMFdV23N2TdNG573QoEsfRrWKQgWeibmLntzniatZvR9BmLnvSxqu53Kw1UmYPxLgboyZQaXwTCg8MSY3H2EU4pWcQDnRnrVA1xe8fs", "xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ"},
				{2 + H, "xprv9z4pot5VBttmtdRTWfWQmoH1taj2axGVzFqSb8C9xaxKymcFzXBDptWmT7FwuEzG3ryjH4ktypQSAewRiNMjANTtpgP4mLTj34bhnZX7UiM", "xpub6D4BDPcP2GT577Vvch3R8wDkScZWzQzMMUm3PWbmWvVJrZwQY4VUNgqFJPMM3No2dFDFGTsxxpG5uJh7n7epu4trkrX7x7DogT5Uv6fcLW5"},
				{2, "xprvA2JDeKCSNNZky6uBCviVfJSKyQ1mDYahRjijr5idH2WwLsEd4Hsb2Tyh8RfQMuPh7f7RtyzTtdrbdqqsunu5Mm3wDvUAKRHSC34sJ7in334", "xpub6FHa3pjLCk84BayeJxFW2SP4XRrFd1JYnxeLeU8EqN3vDfZmbqBqaGJAyiLjTAwm6ZLRQUMv1ZACTj37sR62cfN7fe5JnJ7dh8zL4fiyLHV"},
				{1000000000, "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76", "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy"}}},
		{"4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be", "xprv9s21ZrQH143K25QhxbucbDDuQ4naNntJRi4KUfWT7xo4EKsHt2QJDu7KXp1A3u7Bi1j8ph3EGsZ9Xvz9dGuVrtHHs7pXeTzjuxBrCmmhgC6", "xpub661MyMwAqRbcEZVB4dScxMAdx6d4nFc9nvyvH3v4gJL378CSRZiYmhRoP7mBy6gSPSCYk6SzXPTf3ND1cZAceL7SfJ1Z3GC8vBgp2epUt13",
			[]step{{H, "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L", "xpub68NZiKmJWnxxS6aaHmn81bvJeTESw724CRDs6HbuccFQN9Ku14VQrADWgqbhhTHBaohPX4CjNLf9fq9MYo6oDaPPLPxSb7gwQN3ih19Zm4Y"}}},
	}
	for _, v := range vs {
		s, _ := hex.DecodeString(v.seed)
		k, err := Master(s, 0x0488ade4, HMAC512)
		if err != nil || k.B58() != v.prv || k.Neuter(0x0488b21e).B58() != v.pub {
			t.Fatal("master", err, k.B58())
		}
		for _, st := range v.steps {
			p := k
			k, err = k.Child(st.idx, HMAC512)
			if err != nil || k.B58() != st.prv || k.Neuter(0x0488b21e).B58() != st.pub {
				t.Fatal("child", st.idx, err, k.B58())
			}
			if st.idx < H {
				q, err := p.Neuter(0x0488b21e).Child(st.idx, HMAC512)
				if err != nil || q.B58() != st.pub {
					t.Fatal("pub child", st.idx, err, q.B58())
				}
			}
			b, ok := B58Decode(st.prv)
			if !ok || !bytes.Equal(b, k.Serialized()) {
				t.Fatal("b58")
			}
		}
	}
}

func TestMaths(t *testing.T) {
	for i := int64(1); i < 300; i++ {
		k := new(big.Int).Exp(big.NewInt(7), big.NewInt(i*5), N)
		p := BaseMult(k)
		if !OnCurve(p) {
			t.Fatal("curve")
		}
		q, ok := LiftX(p.X, uint(p.Y.Bit(0)))
		if !ok || q.Y.Cmp(p.Y) != 0 {
			t.Fatal("liftx")
		}
		y, ok := LiftY(p.Y)
		if !ok || !OnCurve(y) || y.Y.Cmp(p.Y) != 0 {
			t.Fatal("lifty")
		}
		if !AddBase(new(big.Int).Sub(N, k), p).Inf {
			t.Fatal("inf")
		}
		if r := Add(p, p); !OnCurve(r) || r.X.Cmp(BaseMult(new(big.Int).Lsh(k, 1)).X) != 0 {
			t.Fatal("double")
		}
	}
	for _, n := range []int{0, 1, 63, 127, 128, 129, 300} {
		k := bytes.Repeat([]byte{byte(n)}, n)
		m := bytes.Repeat([]byte{3}, n+1)
		h := hmac.New(sha512.New, k)
		h.Write(m)
		o := HMAC512(k, m)
		if !bytes.Equal(o[:], h.Sum(nil)) {
			t.Fatal("hmac")
		}
		if !bytes.Equal(PBKDF2(k, m, 5), pbkdf2.Key(k, m, 5, 64, sha512.New)) {
			t.Fatal("pbkdf2")
		}
	}
	if EthAddr(G) != "7e5f4552091a69125d5dfcb7b8c2659029395bdf" {
		t.Fatal("eth")
	}
	g := Compress(G)
	if B58Addr(0, g[:]) != "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH" {
		t.Fatal("addr")
	}
}
