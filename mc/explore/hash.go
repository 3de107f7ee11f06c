package explore

import "fmt"

const (
	fnvOff   = 14695981039346656037
	fnvPrime = 1099511628211
)

// HashBytes is FNV-1a.
func HashBytes(h uint64, b []byte) uint64 {
	if h == 0 {
		h = fnvOff
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * fnvPrime
	}
	return h
}

// HashStr is FNV-1a.
func HashStr(h uint64, s string) uint64 {
	if h == 0 {
		h = fnvOff
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * fnvPrime
	}
	return h
}

// HashU mixes an integer in.
func HashU(h uint64, v uint64) uint64 {
	if h == 0 {
		h = fnvOff
	}
	for i := 0; i < 8; i++ {
		h = (h ^ (v & 0xFF)) * fnvPrime
		v >>= 8
	}
	return h
}

// HashOf hashes the printed form of its arguments.
func HashOf(args ...any) uint64 { return HashStr(0, fmt.Sprint(args...)) }
