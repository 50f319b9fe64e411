//go:build go1.24

package rand

import (
	"io"
	"math/big"

	"github.com/crimist/trakx/zz/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	rt.SyncPoint()
	for i := range b {
		b[i] = byte(rt.S.Misc.U64())
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return Reader.Read(b) }
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	b := make([]byte, 16)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), max), nil
}
