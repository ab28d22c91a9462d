package cryptengine

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/util/descriptors"
)

// feed gives an engine that reads the given lines as passphrases.
func feed(lines ...[]byte) (*CryptEngine, func()) {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	done := make(chan bool)
	go func() {
		for _, l := range lines {
			w.Write(append(append([]byte(nil), l...), '\n'))
		}
		w.Close()
		close(done)
	}()
	ce := New()
	ce.fileTable = &descriptors.Table{PassphraseFP: r}
	return ce, func() { r.Close(); <-done }
}

func opens(home string, pass []byte) bool {
	db, err := keydb.Open(filepath.Join(home, "keys"), append([]byte(nil), pass...))
	if err != nil {
		return false
	}
	defer db.Close()
	_, err = db.Version()
	return err == nil
}

// A key database is made or rekeyed only with a passphrase that was entered
// twice in the same way, and opens with exactly that passphrase afterwards.
func TestVerifEnginePassphrases(t *testing.T) {
	v := vStart(t)
	defer v.done()
	line := func(n int) []byte {
		b := v.bytes(n)
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
		return b
	}
	lens := []int{1, 7, 64, 1365, 2046, 2047, 2048, 2049, 3000, 4094, 4095, 4096, 5000, 9000}
	for i := 0; i < v.n2(len(lens), 3*len(lens)); i++ {
		n := lens[i%len(lens)]
		if i >= len(lens) {
			n = 1 + v.r.Intn(10000)
		}
		home := t.TempDir()
		old, p := line(n), line(lens[v.r.Intn(len(lens))])
		if bytes.Equal(old, p) {
			continue
		}
		other := line(n)
		if !bytes.Equal(old, other) {
			ce, end := feed(old, other)
			err := ce.dbCreate(home, 1)
			end()
			v.check(err != nil, fmt.Sprintf("create-differ %d", n), "a database was made although the passphrase (%d bytes) was repeated differently", n)
			m, _ := filepath.Glob(filepath.Join(home, "*"))
			v.check(len(m) == 0, fmt.Sprintf("create-differ %d", n), "files were made: %v", m)
			for _, f := range m {
				os.Remove(f)
			}
		}
		ce, end := feed(old, old)
		err := ce.dbCreate(home, 1)
		end()
		v.check(err == nil, fmt.Sprintf("create %d", n), "dbCreate: %v", err)
		v.check(opens(home, old), fmt.Sprintf("create %d", n), "the database does not open with its passphrase")
		// repeated differently: nothing changes
		wrong := line(len(p))
		if i%2 == 0 { // nearly the same
			wrong = append([]byte(nil), p...)
			wrong[v.r.Intn(len(p))] ^= 0x20
		}
		if !bytes.Equal(p, wrong) {
			ce, end = feed(old, p, wrong)
			err = ce.dbRekey(home, 1)
			end()
			v.check(err != nil, fmt.Sprintf("rekey-differ %d %d", n, len(p)), "the database was rekeyed although the new passphrase (%d bytes) was repeated differently", len(p))
			v.check(opens(home, old), fmt.Sprintf("rekey-differ %d %d", n, len(p)), "the database does not open with its passphrase any more")
		}
		// a wrong old passphrase: nothing changes
		ce, end = feed(p, p, p)
		err = ce.dbRekey(home, 1)
		end()
		v.check(err != nil && opens(home, old), fmt.Sprintf("rekey-wrong %d %d", n, len(p)), "rekeyed with a wrong passphrase: %v", err)
		ce, end = feed(old, p, p)
		err = ce.dbRekey(home, 1)
		end()
		v.check(err == nil, fmt.Sprintf("rekey %d %d", n, len(p)), "dbRekey: %v", err)
		v.check(opens(home, p) && !opens(home, old), fmt.Sprintf("rekey %d %d", n, len(p)), "after the rekey from %d to %d bytes the database does not open with exactly the new passphrase", n, len(p))
	}
}
