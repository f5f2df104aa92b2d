package ref

import "math/big"

// ParsePath is the path grammar: m|M (/N')* (/N)*, white space (\t\n\f\r and
// blank) ignored, N' < 2^31, N < 2^32. Hand-written, no regexp, no strconv.
func ParsePath(s string) ([]uint32, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', '\f', '\r':
		default:
			b = append(b, s[i])
		}
	}
	if len(b) == 0 || (b[0] != 'm' && b[0] != 'M') {
		return nil, false
	}
	out := []uint32{0}
	i := 1
	soft := false
	for i < len(b) {
		if b[i] != '/' {
			return nil, false
		}
		i++
		v := new(big.Int)
		n := 0
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			v.Mul(v, big.NewInt(10))
			v.Add(v, big.NewInt(int64(b[i]-'0')))
			i++
			n++
		}
		if n == 0 {
			return nil, false
		}
		hard := i < len(b) && b[i] == '\''
		if hard {
			if soft {
				return nil, false
			}
			i++
			if v.BitLen() > 31 {
				return nil, false
			}
			out = append(out, uint32(v.Uint64())+HardBit)
			continue
		}
		soft = true
		if v.BitLen() > 32 {
			return nil, false
		}
		out = append(out, uint32(v.Uint64()))
	}
	return out, true
}

// Strip removes the white space paths ignore.
func Strip(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case ' ', '\t', '\n', '\f', '\r':
		default:
			b = append(b, s[i])
		}
	}
	return string(b)
}

// Label renders an index list the way derived keys are labelled.
func Label(root string, idx []uint32) string {
	s := root
	for _, v := range idx {
		s += "/" + Comp(v)
	}
	return s
}

// Comp renders one component.
func Comp(v uint32) string {
	if v >= HardBit {
		return new(big.Int).SetUint64(uint64(v-HardBit)).String() + "'"
	}
	return new(big.Int).SetUint64(uint64(v)).String()
}
