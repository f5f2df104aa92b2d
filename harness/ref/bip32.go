package ref

import (
	"encoding/binary"
	"errors"
	"math/big"
)

// HardBit is 2^31.
const HardBit = uint32(1) << 31

// XKey is the abstract extended key: the state of the BIP-32 model.
type XKey struct {
	Ver   uint32
	Depth byte
	FP    [4]byte
	CN    uint32
	CC    [32]byte
	Key   [33]byte
}

// Mac is the keyed hash; the environment may be replaced.
type Mac func(key, msg []byte) [64]byte

var (
	ErrUnusable = errors.New("unusable derivation result")
	ErrHardened = errors.New("hardened child of a public key")
	ErrDepth    = errors.New("depth limit")
	ErrVersion  = errors.New("version not registered")
	ErrPayload  = errors.New("invalid payload")
)

func (k XKey) Private() bool { return k.Key[0] == 0 }

func (k XKey) Scalar() *big.Int { return new(big.Int).SetBytes(k.Key[1:]) }

// Point of the key (private or public).
func (k XKey) Point() (Point, bool) {
	if k.Private() {
		s := k.Scalar()
		if s.Sign() == 0 || s.Cmp(N) >= 0 {
			return Point{}, false
		}
		return BaseMult(s), true
	}
	if k.Key[0] != 2 && k.Key[0] != 3 {
		return Point{}, false
	}
	return LiftX(new(big.Int).SetBytes(k.Key[1:]), uint(k.Key[0]&1))
}

func (k XKey) Bytes() [78]byte {
	var o [78]byte
	binary.BigEndian.PutUint32(o[0:], k.Ver)
	o[4] = k.Depth
	copy(o[5:9], k.FP[:])
	binary.BigEndian.PutUint32(o[9:], k.CN)
	copy(o[13:45], k.CC[:])
	copy(o[45:], k.Key[:])
	return o
}

func ParseX(b [78]byte) XKey {
	var k XKey
	k.Ver = binary.BigEndian.Uint32(b[0:])
	k.Depth = b[4]
	copy(k.FP[:], b[5:9])
	k.CN = binary.BigEndian.Uint32(b[9:])
	copy(k.CC[:], b[13:45])
	copy(k.Key[:], b[45:])
	return k
}

func (k XKey) Serialized() []byte { b := k.Bytes(); return WithChecksum(b[:]) }
func (k XKey) B58() string        { return B58Encode(k.Serialized()) }

func inRange(v *big.Int) bool { return v.Sign() > 0 && v.Cmp(N) < 0 }

// Master is the BIP-32 master key generation.
func Master(seed []byte, ver uint32, mac Mac) (XKey, error) {
	i := mac([]byte("Bitcoin seed"), seed)
	il := new(big.Int).SetBytes(i[:32])
	if !inRange(il) {
		return XKey{}, ErrUnusable
	}
	k := XKey{Ver: ver}
	copy(k.Key[1:], i[:32])
	copy(k.CC[:], i[32:])
	return k, nil
}

// ChildData is the message hashed for child idx.
func (k XKey) ChildData(idx uint32) []byte {
	var d [37]byte
	if idx >= HardBit {
		copy(d[1:], k.Key[1:])
	} else {
		p, _ := k.Point()
		c := Compress(p)
		copy(d[:], c[:])
	}
	binary.BigEndian.PutUint32(d[33:], idx)
	return d[:]
}

// Child is CKDpriv or CKDpub, whichever applies.
func (k XKey) Child(idx uint32, mac Mac) (XKey, error) {
	if !k.Private() && idx >= HardBit {
		return XKey{}, ErrHardened
	}
	if k.Depth == 255 {
		return XKey{}, ErrDepth
	}
	pt, ok := k.Point()
	if !ok {
		return XKey{}, ErrPayload
	}
	pc := Compress(pt)
	var d [37]byte
	if idx >= HardBit {
		copy(d[1:], k.Key[1:])
	} else {
		copy(d[:], pc[:])
	}
	binary.BigEndian.PutUint32(d[33:], idx)
	i := mac(k.CC[:], d[:])
	il := new(big.Int).SetBytes(i[:32])
	if !inRange(il) {
		return XKey{}, ErrUnusable
	}
	c := XKey{Ver: k.Ver, Depth: k.Depth + 1, CN: idx}
	copy(c.CC[:], i[32:])
	copy(c.FP[:], Hash160(pc[:])[:4])
	if k.Private() {
		s := il.Add(il, k.Scalar())
		s.Mod(s, N)
		if s.Sign() == 0 {
			return XKey{}, ErrUnusable
		}
		b := Bytes32(s)
		copy(c.Key[1:], b[:])
	} else {
		p := AddBase(il, pt)
		if p.Inf {
			return XKey{}, ErrUnusable
		}
		c.Key = Compress(p)
	}
	return c, nil
}

// Neuter gives the extended public key under public version pubVer.
func (k XKey) Neuter(pubVer uint32) XKey {
	if !k.Private() {
		k.Ver = pubVer
		return k
	}
	p, _ := k.Point()
	k.Key = Compress(p)
	k.Ver = pubVer
	return k
}
