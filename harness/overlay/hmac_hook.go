package hmac

import "hash"

// VerifHook, when set, may replace the digest of a 64-byte keyed hash. It is
// the environment model's only way into the code under test.
var VerifHook func(key, msg []byte) ([]byte, bool)

// New is the hooked constructor (see New0, the original).
func New(h func() hash.Hash, key []byte) hash.Hash {
	in := New0(h, key)
	if VerifHook == nil || in.Size() != 64 {
		return in
	}
	return &verifMac{in: in, key: append([]byte(nil), key...)}
}

type verifMac struct {
	in  hash.Hash
	key []byte
	msg []byte
}

func (v *verifMac) Write(p []byte) (int, error) {
	v.msg = append(v.msg, p...)
	return v.in.Write(p)
}
func (v *verifMac) Sum(b []byte) []byte {
	if d, ok := VerifHook(v.key, v.msg); ok {
		return append(b, d...)
	}
	return v.in.Sum(b)
}
func (v *verifMac) Reset()         { v.msg = v.msg[:0]; v.in.Reset() }
func (v *verifMac) Size() int      { return v.in.Size() }
func (v *verifMac) BlockSize() int { return v.in.BlockSize() }
