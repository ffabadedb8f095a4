package zfarm

import (
	real "github.com/dgryski/go-farm"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
)

func h(b []byte, f func([]byte) uint64) uint64 {
	if v, ok := rt.HashOf(b); ok {
		return v
	}
	return f(b)
}
func Fingerprint64(b []byte) uint64                { return h(b, real.Fingerprint64) }
func Hash64(b []byte) uint64                       { return h(b, real.Hash64) }
func Hash32(b []byte) uint32                       { return real.Hash32(b) }
func Fingerprint32(b []byte) uint32                { return real.Fingerprint32(b) }
func Hash64WithSeed(b []byte, s uint64) uint64     { return real.Hash64WithSeed(b, s) }
func Hash64WithSeeds(b []byte, s, t uint64) uint64 { return real.Hash64WithSeeds(b, s, t) }
func Hash128(b []byte) (uint64, uint64)            { return real.Hash128(b) }
func Fingerprint128(b []byte) (uint64, uint64)     { return real.Fingerprint128(b) }
