package ref

import (
	"crypto/sha256"
	"errors"
	"strings"
	"unicode"
)

var (
	ErrSize  = errors.New("size")
	ErrWord  = errors.New("unknown word")
	ErrCheck = errors.New("checksum")
)

func SizeOK(nbytes int) bool {
	switch nbytes {
	case 16, 20, 24, 28, 32:
		return true
	}
	return false
}

// Bits of b, most significant first.
func bits(b []byte) []byte {
	o := make([]byte, 0, len(b)*8)
	for _, v := range b {
		for i := 7; i >= 0; i-- {
			o = append(o, v>>uint(i)&1)
		}
	}
	return o
}

// Indexes is the BIP-39 word index sequence of an entropy.
func Indexes(ent []byte) []int {
	h := sha256.Sum256(ent)
	bs := append(bits(ent), bits(h[:])[:len(ent)/4]...)
	o := make([]int, 0, len(bs)/11)
	for i := 0; i < len(bs); i += 11 {
		v := 0
		for _, b := range bs[i : i+11] {
			v = v<<1 | int(b)
		}
		o = append(o, v)
	}
	return o
}

func Sentence(ent []byte, list []string) string {
	var w []string
	for _, i := range Indexes(ent) {
		w = append(w, list[i])
	}
	return strings.Join(w, " ")
}

// Decode an index sequence.
func Decode(idx []int) ([]byte, error) {
	switch len(idx) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, ErrSize
	}
	var bs []byte
	for _, v := range idx {
		for i := 10; i >= 0; i-- {
			bs = append(bs, byte(v>>uint(i)&1))
		}
	}
	cs := len(idx) / 3
	ent := make([]byte, (len(bs)-cs)/8)
	for i := 0; i < len(ent)*8; i++ {
		ent[i/8] |= bs[i] << uint(7-i%8)
	}
	h := sha256.Sum256(ent)
	hb := bits(h[:])
	for i := 0; i < cs; i++ {
		if hb[i] != bs[len(ent)*8+i] {
			return ent, ErrCheck
		}
	}
	return ent, nil
}

// FullBytes is entropy||checksum bits as the integer's bytes, padded to len+1
// (the repository's byte-array form).
func FullBytes(ent []byte) []byte {
	h := sha256.Sum256(ent)
	cs := uint(len(ent) / 4)
	o := make([]byte, len(ent)+1)
	// value = ent << cs | top cs bits of hash
	all := append(bits(ent), bits(h[:])[:cs]...)
	pad := len(o)*8 - len(all)
	for i, b := range all {
		p := i + pad
		o[p/8] |= b << uint(7-p%8)
	}
	return o
}

// Tokens splits at Unicode white space.
func Tokens(s string) []string {
	var o []string
	cur := ""
	for _, r := range s {
		if unicode.IsSpace(r) {
			if cur != "" {
				o = append(o, cur)
				cur = ""
			}
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		o = append(o, cur)
	}
	return o
}

// DecodeString decodes with a word->index map.
func DecodeString(s string, m map[string]int) ([]byte, error) {
	t := Tokens(s)
	switch len(t) {
	case 12, 15, 18, 21, 24:
	default:
		return nil, ErrSize
	}
	idx := make([]int, len(t))
	for i, w := range t {
		v, ok := m[w]
		if !ok {
			return nil, ErrWord
		}
		idx[i] = v
	}
	return Decode(idx)
}
