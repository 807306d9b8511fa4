package gen

// The traditional DES crypt(3), bit by bit from FIPS 46 and the manual page: one bit
// per byte, no tables but those of the standard.

var desIP = [64]int{
	58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4,
	62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
	57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3,
	61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7,
}

var desE = [48]int{
	32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17,
	16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
}

var desP = [32]int{
	16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10,
	2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25,
}

var desPC1 = [56]int{
	57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18,
	10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
	63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22,
	14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
}

var desPC2 = [48]int{
	14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
	41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
}

var desShift = [16]int{1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1}

var desS = [8][64]byte{
	{14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13},
	{15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9},
	{10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12},
	{7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14},
	{2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3},
	{12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13},
	{4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12},
	{13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11},
}

// CryptAlphabet has the characters of salts and hashes in the order of their values
const CryptAlphabet = "./0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

// IsCrypt reports whether c is one of them
func IsCrypt(c byte) bool { return cryptValue(c) >= 0 }

func cryptValue(c byte) int {
	for i := 0; i < len(CryptAlphabet); i++ {
		if CryptAlphabet[i] == c {
			return i
		}
	}
	return -1
}

// DESCrypt returns the 13 characters of crypt(3). The salt is two characters of the alphabet.
func DESCrypt(password []byte, salt string) string {
	// The low seven bits of the first eight bytes up to a NUL, each followed by a parity bit
	var key [64]byte
	for i := 0; i < 8 && i < len(password) && password[i] != 0; i++ {
		for b := 0; b < 7; b++ {
			key[8*i+b] = password[i] >> (6 - b) & 1
		}
	}
	var cd [56]byte
	for i, p := range desPC1 {
		cd[i] = key[p-1]
	}
	var keys [16][48]byte
	for r := range keys {
		for s := 0; s < desShift[r]; s++ {
			c0, d0 := cd[0], cd[28]
			copy(cd[0:27], cd[1:28])
			copy(cd[28:55], cd[29:56])
			cd[27], cd[55] = c0, d0
		}
		for i, p := range desPC2 {
			keys[r][i] = cd[p-1]
		}
	}
	// Each of the twelve bits of the salt exchanges two outputs of E
	e := desE
	for c := 0; c < 2; c++ {
		v := cryptValue(salt[c])
		for b := 0; b < 6; b++ {
			if v>>b&1 == 1 {
				i := 6*c + b
				e[i], e[i+24] = e[i+24], e[i]
			}
		}
	}
	var block [64]byte
	for n := 0; n < 25; n++ {
		var lr [64]byte
		for i, p := range desIP {
			lr[i] = block[p-1]
		}
		l, r := lr[:32:32], lr[32:]
		for k := range keys {
			var x [48]byte
			for i, p := range e {
				x[i] = r[p-1] ^ keys[k][i]
			}
			var s [32]byte
			for b := 0; b < 8; b++ {
				g := x[6*b : 6*b+6]
				row, col := g[0]<<1|g[5], g[1]<<3|g[2]<<2|g[3]<<1|g[4]
				v := desS[b][16*row+col]
				for i := 0; i < 4; i++ {
					s[4*b+i] = v >> (3 - i) & 1
				}
			}
			f := make([]byte, 32)
			for i, p := range desP {
				f[i] = s[p-1] ^ l[i]
			}
			l, r = r, f
		}
		var out [64]byte
		copy(out[:32], r)
		copy(out[32:], l)
		for i, p := range desIP { // its inverse
			block[p-1] = out[i]
		}
	}
	res := []byte(salt[:2])
	for i := 0; i < 66; i += 6 {
		v := 0
		for b := 0; b < 6; b++ {
			v <<= 1
			if i+b < 64 {
				v |= int(block[i+b])
			}
		}
		res = append(res, CryptAlphabet[v])
	}
	return string(res)
}
