package ref

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"math/big"

	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// B58Encode is Base58 by repeated division on a digit array.
func B58Encode(in []byte) string {
	z := 0
	for z < len(in) && in[z] == 0 {
		z++
	}
	var digits []int
	for _, b := range in[z:] {
		carry := int(b)
		for i := range digits {
			carry += digits[i] << 8
			digits[i] = carry % 58
			carry /= 58
		}
		for carry > 0 {
			digits = append(digits, carry%58)
			carry /= 58
		}
	}
	out := make([]byte, 0, z+len(digits))
	for i := 0; i < z; i++ {
		out = append(out, '1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, b58[digits[i]])
	}
	return string(out)
}

// B58Decode returns ok=false on characters outside the alphabet.
func B58Decode(s string) ([]byte, bool) {
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	var bytes []int
	for i := z; i < len(s); i++ {
		d := -1
		for j := 0; j < 58; j++ {
			if b58[j] == s[i] {
				d = j
				break
			}
		}
		if d < 0 {
			return nil, false
		}
		carry := d
		for k := range bytes {
			carry += bytes[k] * 58
			bytes[k] = carry & 255
			carry >>= 8
		}
		for carry > 0 {
			bytes = append(bytes, carry&255)
			carry >>= 8
		}
	}
	out := make([]byte, z+len(bytes))
	for i := range bytes {
		out[len(out)-1-i] = byte(bytes[i])
	}
	return out, true
}

func DblSha4(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return append([]byte(nil), h[:4]...)
}

func Hash160(b []byte) []byte {
	h := sha256.Sum256(b)
	r := ripemd160.New()
	r.Write(h[:])
	return r.Sum(nil)
}

func WithChecksum(b []byte) []byte {
	o := append([]byte(nil), b...)
	return append(o, DblSha4(b)...)
}

// HMAC512 is HMAC-SHA512 written out (does not go through crypto/hmac).
func HMAC512(key, msg []byte) [64]byte {
	if len(key) > 128 {
		h := sha512.Sum512(key)
		key = h[:]
	}
	ip := make([]byte, 128, 128+len(msg))
	op := make([]byte, 128, 192)
	copy(ip, key)
	copy(op, key)
	for i := 0; i < 128; i++ {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	in := sha512.Sum512(append(ip, msg...))
	return sha512.Sum512(append(op, in[:]...))
}

// PBKDF2 with HMAC-SHA512, one block.
func PBKDF2(pw, salt []byte, iter int) []byte {
	if len(pw) > 128 {
		h := sha512.Sum512(pw)
		pw = h[:]
	}
	var ip, op [128]byte
	copy(ip[:], pw)
	copy(op[:], pw)
	for i := range ip {
		ip[i] ^= 0x36
		op[i] ^= 0x5c
	}
	buf := make([]byte, 192)
	obuf := make([]byte, 192)
	copy(buf, ip[:])
	copy(obuf, op[:])
	first := append(append(append([]byte(nil), ip[:]...), salt...), 0, 0, 0, 1)
	in := sha512.Sum512(first)
	copy(obuf[128:], in[:])
	u := sha512.Sum512(obuf)
	t := u
	for i := 1; i < iter; i++ {
		copy(buf[128:], u[:])
		in = sha512.Sum512(buf)
		copy(obuf[128:], in[:])
		u = sha512.Sum512(obuf)
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t[:]
}

// EthAddr is the address of a public point.
func EthAddr(p Point) string {
	x, y := Bytes32(p.X), Bytes32(p.Y)
	k := sha3.NewLegacyKeccak256()
	k.Write(x[:])
	k.Write(y[:])
	return hex.EncodeToString(k.Sum(nil)[12:])
}

// B58Addr is the Base58Check address of a compressed public key.
func B58Addr(ver byte, pub []byte) string {
	return B58Encode(WithChecksum(append([]byte{ver}, Hash160(pub)...)))
}

// HexInt parses hexadecimal.
func HexInt(s string) *big.Int { return hexInt(s) }
