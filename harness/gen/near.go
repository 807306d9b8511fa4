package gen

// Near is content which is almost the old: the same, with another byte somewhere, of the
// same length, one byte shorter or longer. Each seed gives another.
func Near(old []byte, seed uint64) []byte {
	b := append([]byte{}, old...)
	n := uint64(len(b))
	at := seed >> 8
	if n == 0 {
		return append(b, byte(at))
	}
	switch seed % 8 {
	case 0: // the same
	case 1: // another byte in the middle
		b[n/4+at%(n-n/2)] ^= byte(1 << (at % 8))
	case 2:
		b[at%n] ^= byte(1 << (at % 8))
	case 3:
		b[n-1] ^= byte(1 << (at % 8))
	case 4:
		b[0] ^= byte(1 << (at % 8))
	case 5: // nothing is the same but the length
		Noise(b, at)
	case 6:
		b = b[:n-1]
	case 7:
		b = append(b, byte(at))
	}
	return b
}
