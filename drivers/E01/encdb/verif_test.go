package encdb

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

// RFC 8018, one block of 32 bytes
func vPBKDF2(pass, salt []byte, n int) []byte {
	h := hmac.New(sha256.New, pass)
	h.Write(salt)
	h.Write([]byte{0, 0, 0, 1})
	u := h.Sum(nil)
	t := append([]byte{}, u...)
	for i := 2; i <= n; i++ {
		h.Reset()
		h.Write(u)
		u = h.Sum(nil)
		for j := range t {
			t[j] ^= u[j]
		}
	}
	return t
}

// vKeyOf: the key of a key file by the documented format, nil if it has none.
func vKeyOf(f, pass []byte) []byte {
	if len(f) < 88 {
		return nil
	}
	n := binary.LittleEndian.Uint64(f)
	if n > 2147483647 {
		return nil
	}
	b, _ := aes.NewCipher(vPBKDF2(pass, f[8:40], int(n)))
	out := make([]byte, 32)
	cipher.NewCBCDecrypter(b, f[40:56]).CryptBlocks(out, f[56:88])
	return out
}

func vImage(key, pass, salt, iv []byte, n uint64) []byte {
	f := make([]byte, 8)
	binary.LittleEndian.PutUint64(f, n)
	f = append(append(f, salt...), iv...)
	b, _ := aes.NewCipher(vPBKDF2(pass, salt, int(n)))
	out := make([]byte, 32)
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(out, key)
	return append(f, out...)
}

func vDir(t *testing.T) (string, func()) {
	d, err := ioutil.TempDir("", "verif-encdb")
	if err != nil {
		t.Fatal(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func vRead(name string) []byte {
	b, _ := ioutil.ReadFile(name)
	return b
}

// Key files of the documented format, whole, cut and changed.
func TestVerifReadKeyfile(t *testing.T) {
	v := vStart(t)
	dir, del := vDir(t)
	defer del()
	fn := filepath.Join(dir, "k")
	for i := 0; i < v.n2(60, 1500); i++ {
		key, pass := v.sbytes(32), v.sbytes(v.r.Intn(40))
		img := vImage(key, pass, v.sbytes(32), v.sbytes(16), uint64(v.r.Intn(40)))
		ioutil.WriteFile(fn, img, 0600)
		v.noPanic("E01:read", func() {
			k, err := ReadKeyfile(fn, pass)
			v.check(err == nil && bytes.Equal(k, key), "E01:read", "key file %x, passphrase %x: key %x, %v, want %x", img, pass, k, err, key)
		}, "key file %x", img)
		v.noPanic("E01:wrong-passphrase", func() {
			p := append([]byte{1}, pass...)
			if i%3 == 0 {
				p = append(append([]byte{}, pass...), []byte(" \n")...)
			}
			if i%3 == 1 {
				p = append([]byte(" "), pass...)
			}
			k, err := ReadKeyfile(fn, p)
			v.check(err != nil || bytes.Equal(k, vKeyOf(img, p)) && !bytes.Equal(k, key), "E01:wrong-passphrase", "key file %x, passphrase %x: key %x", img, p, k)
		}, "key file %x", img)
		for j := 0; j < 4; j++ {
			n := v.r.Intn(88)
			if j == 0 {
				n = []int{0, 1, 7, 8, 9, 39, 40, 41, 55, 56, 57, 72, 87}[i%13]
			}
			ioutil.WriteFile(fn, img[:n], 0600)
			v.noPanic("E01:cut", func() {
				k, err := ReadKeyfile(fn, pass)
				v.check(err != nil && k == nil, "E01:cut", "key file %x cut to %d bytes: key %x, %v", img, n, k, err)
			}, "key file %x cut to %d bytes", img, n)
		}
		big := append([]byte{}, img...)
		binary.LittleEndian.PutUint64(big, []uint64{1 << 31, 1<<31 + 5, 1 << 32, 1<<32 + 7, 1 << 63, 1<<64 - 1}[i%6])
		ioutil.WriteFile(fn, big, 0600)
		v.noPanic("E01:iterations", func() {
			k, err := ReadKeyfile(fn, pass)
			v.check(err != nil && k == nil, "E01:iterations", "key file %x: key %x, %v", big, k, err)
		}, "key file %x", big)
	}
	v.done()
}

// Databases made, opened, and given other passphrases.
func TestVerifDatabase(t *testing.T) {
	v := vStart(t)
	for i := 0; i < v.n2(8, 80); i++ {
		dir, del := vDir(t)
		name := filepath.Join(dir, "x")
		pass, iter := v.sbytes(1+v.r.Intn(40)), 1+v.r.Intn(30)
		stmts := []string{"CREATE TABLE A (K TEXT, N INTEGER);", "CREATE TABLE B (X TEXT);"}
		if !v.check(Create(name, pass, iter, stmts) == nil, "E01:create", "passphrase %x", pass) {
			del()
			continue
		}
		img := vRead(name + KeySuffix)
		key := vKeyOf(img, pass)
		v.check(len(img) == 88 && binary.LittleEndian.Uint64(img) == uint64(iter), "E01:format", "key file %x, %d iterations", img, iter)
		v.check(Create(name, pass, iter, nil) != nil && bytes.Equal(vRead(name+KeySuffix), img), "E01:create-again", "existing database was made again")
		db, err := Open(name, pass)
		if !v.check(err == nil, "E01:open", "passphrase %x: %v", pass, err) {
			del()
			continue
		}
		for j := 0; j < 5; j++ {
			_, err := db.Exec("INSERT INTO A VALUES (?, ?);", string(v.r.Intn(100)+65), j)
			v.check(err == nil, "E01:tables", "first table: %v", err)
		}
		_, err = db.Exec("INSERT INTO B VALUES ('b');")
		v.check(err == nil, "E01:tables", "second table: %v", err)
		db.Close()
		raw := vRead(name + DBSuffix)
		v.check(!bytes.Contains(raw, []byte("CREATE TABLE")) && !bytes.Contains(raw, key), "E01:encrypted", "database file shows its tables")
		salts := map[string]bool{string(img[8:40]): true}
		for j := 0; j < 4; j++ {
			np := v.sbytes(1 + v.r.Intn(40))
			ni := 1 + v.r.Intn(30)
			wrong := append([]byte("w"), pass...)
			v.check(Rekey(name, wrong, np, ni) != nil && bytes.Equal(vRead(name+KeySuffix), img), "E01:rekey-wrong", "a wrong passphrase changed the key file")
			bad := []int{-1, 1 << 31, 1 << 40}[j%3]
			v.check(Rekey(name, pass, np, bad) != nil && bytes.Equal(vRead(name+KeySuffix), img), "E01:rekey-iter", "%d iterations changed the key file", bad)
			// an interrupted attempt left something behind
			switch j {
			case 1:
				left := v.bytes(v.r.Intn(200))
				if i%2 == 0 {
					left = vImage(v.bytes(32), np, v.bytes(32), v.bytes(16), uint64(ni))
				}
				ioutil.WriteFile(name+KeySuffix+".new", left, 0600)
			case 2: // the new file cannot be written
				os.MkdirAll(name+KeySuffix+".new/d", 0700)
				v.check(Rekey(name, pass, np, ni) != nil && bytes.Equal(vRead(name+KeySuffix), img), "E01:rekey-fails", "a failing rekey changed the key file")
				os.RemoveAll(name + KeySuffix + ".new")
			}
			err := Rekey(name, pass, np, ni)
			nimg := vRead(name + KeySuffix)
			v.check(err == nil && len(nimg) == 88 && bytes.Equal(vKeyOf(nimg, np), key), "E01:rekey", "key file %x, passphrase %x, %v: key %x, want %x", nimg, np, err, vKeyOf(nimg, np), key)
			if len(nimg) != 88 {
				break
			}
			v.check(!salts[string(nimg[8:40])] && !bytes.Equal(nimg[40:56], img[40:56]), "E01:salt", "salt or IV used again")
			salts[string(nimg[8:40])] = true
			v.check(bytes.Equal(vRead(name+DBSuffix), raw), "E01:rekey-db", "the database file changed")
			// HMAC pads keys with zeros, so these are one passphrase to PBKDF2
			if !bytes.Equal(bytes.TrimRight(np, "\x00"), bytes.TrimRight(pass, "\x00")) {
				if db, err := Open(name, pass); err == nil {
					v.fail("E01:old-passphrase", "the old passphrase still opens the database")
					db.Close()
				}
			}
			pass, img = np, nimg
			db, err := Open(name, pass)
			if v.check(err == nil, "E01:open", "new passphrase %x: %v", pass, err) {
				var n int
				err := db.QueryRow("SELECT count(*) FROM A;").Scan(&n)
				v.check(err == nil && n == 5, "E01:data", "%d rows, %v", n, err)
				db.Close()
			}
		}
		// a key file or database which is no such file
		for _, n := range []int{0, 8, 40, 87} {
			ioutil.WriteFile(name+KeySuffix, img[:n], 0600)
			v.noPanic("E01:open-cut", func() {
				db, err := Open(name, pass)
				v.check(err != nil && db == nil, "E01:open-cut", "opened with a key file of %d bytes", n)
				v.check(Rekey(name, pass, []byte("p"), 1) != nil && len(vRead(name+KeySuffix)) == n, "E01:rekey-cut", "rekey with a key file of %d bytes", n)
			}, "key file of %d bytes", n)
		}
		ioutil.WriteFile(name+KeySuffix, img, 0600)
		ioutil.WriteFile(name+DBSuffix, append([]byte("SQLite format 3\x00"), v.bytes(1000)...), 0600)
		if db, err := Open(name, pass); err == nil {
			v.fail("E01:unencrypted", "an unencrypted database was opened")
			db.Close()
		}
		// only one of the two files exists
		os.Remove(name + DBSuffix)
		v.check(Create(name, pass, iter, stmts) != nil && bytes.Equal(vRead(name+KeySuffix), img), "E01:create-key", "an existing key file was overwritten")
		os.Remove(name + KeySuffix)
		ioutil.WriteFile(name+DBSuffix, raw, 0600)
		_, err = os.Stat(name + KeySuffix)
		v.check(Create(name, pass, iter, stmts) != nil && bytes.Equal(vRead(name+DBSuffix), raw) && os.IsNotExist(err), "E01:create-db", "an existing database was overwritten")
		del()
	}
	v.done()
}
