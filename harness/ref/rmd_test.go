package ref

import (
	"encoding/hex"
	"testing"
)

func TestRipemd(t *testing.T) {
	for in, want := range map[string]string{"": "9c1185a5c5e9fc54612808977ee8f548b2258d31", "abc": "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc",
		"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq": "12a053384a9c0c88e405a06c27dcf49ada62eb2b"} {
		if got := hex.EncodeToString(Ripemd160([]byte(in))); got != want {
			t.Errorf("%q %s", in, got)
		}
	}
}
