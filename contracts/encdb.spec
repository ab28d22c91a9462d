# encrypted databases: the key file

package os os
package sql database/sql

package mute/encdb
package encode mute/encode
package aes256 mute/cipher/aes256

logic notexist(Val) Bool

extern os.Create(name) (f, err)
  why the operating system: creates or truncates the file
  event oscreate
  fresh f
  ensures (err == nil) == (f != nil)

extern os.Open(name) (f, err)
  why the operating system
  event osopen
  fresh f
  ensures (err == nil) == (f != nil)

extern os.Stat(name) (fi, err)
  why the operating system
  event osstat

extern os.IsNotExist(err) (r)
  why of the operating system's errors
  event isnotexist
  ensures err == nil ==> !r

extern os.Remove(name) (err)
  why the operating system
  event osremove

extern os.Rename(from, to) (err)
  why the operating system: replaces to by from at once
  event osrename

extern (*os.File).Write(f, b) (n, err)
  why the operating system
  event fwrite
  ensures err == nil ==> n == len(b)

extern (*os.File).Close(f) (err)
  why the operating system
  event fclose

extern sql.Open(driver, dsn) (db, err)
  why database/sql
  event sqlopen
  fresh db
  ensures (err == nil) == (db != nil)

extern (*sql.DB).Exec(db, query, args) (r, err)
  why database/sql
  event dbexec

extern (*sql.DB).Close(db) (err)
  why database/sql
  event dbclose

extern github.com/mutecomm/go-sqlcipher/v4.IsEncrypted(filename) (r, err)
  why looks at the first bytes of the database file
  event isencrypted

# the content of a key file: iterations, salt, and the key encrypted by the derived key
def derived(pass, salt, n) = pbkdf2sha256(pass, salt, n, 32)
def keyImage(pass, n, salt, iv, key) = cat(le(8, n), salt, iv, cbcenc(derived(pass, salt, n), iv, key))
# the key of a key file
def keyOf(pass, f) = cbcdec(derived(pass, sub(f, 8, 40), fromle(sub(f, 0, 8))), sub(f, 40, 56), sub(f, 56, 88))
lemma keyFile [E01] (p Bytes, n Int, s Bytes32, i Bytes16, k Bytes32) imp(0 <= n && n <= 2147483647, keyOf(p, keyImage(p, n, s, i, k)) == k && len(keyImage(p, n, s, i, k)) == 88)

func fileExists(filename) (r, err)
  prop E01
  inline
  ensures count("osstat") == 1 && evlast("osstat", 0, "name") == filename
  ensures err == nil && !r ==> evlast("osstat", 0, "err") != nil && evlast("isnotexist", 0, "r") && evlast("isnotexist", 0, "err") == evlast("osstat", 0, "err")

func writeKeyfile(filename, passphrase, iter, key) (err)
  prop E01
  inline
  post img = evcat("fwrite", "b")
  # only a file which did not exist is written
  at oscreate: evlast("osstat", 0, "name") == evlast("oscreate", 0, "name") && evlast("osstat", 0, "err") != nil && evlast("isnotexist", 0, "r")
  at oscreate: evlast("oscreate", 0, "name") == filename && len(key) == 32
  at fwrite: evlast("fwrite", 0, "f") == evlast("oscreate", 0, "f")
  ensures count("osremove") == 0 && count("osrename") == 0 && count("oscreate") <= 1
  ensures err == nil ==> count("oscreate") == 1 && len(img) == 88 && len(key) == 32 && 0 <= iter && iter <= 2147483647
  ensures err == nil ==> img == keyImage(passphrase, iter, sub(img, 8, 40), sub(img, 40, 56), bytes(key))
  ensures err == nil ==> sub(img, 8, 40) == evarg("read", 0, "data") && evarg("read", 0, "ok")
  ensures count("fwrite") <= 3
  ensures err == nil ==> imp(count("fwrite") >= 1, evlast("fwrite", 0, "err") == nil) && imp(count("fwrite") >= 2, evlast("fwrite", 1, "err") == nil) && imp(count("fwrite") >= 3, evlast("fwrite", 2, "err") == nil)

func generateKeyfile(filename, passphrase, iter) (key, err)
  prop E01
  inline
  post img = evcat("fwrite", "b")
  ensures err != nil ==> key == nil
  ensures err == nil ==> len(key) == 32 && count("oscreate") == 1 && evlast("oscreate", 0, "name") == filename && bytes(key) == evarg("read", 0, "data") && evarg("read", 0, "ok")
  ensures err == nil ==> img == keyImage(passphrase, iter, sub(img, 8, 40), sub(img, 40, 56), bytes(key))

func ReadKeyfile(filename, passphrase) (key, err)
  prop E01
  inline
  post f = evcat("read", "data")
  at read: unbox(evlast("read", 0, "r"), "*os.File") == evlast("osopen", 0, "f")
  ensures count("osopen") == 1 && evlast("osopen", 0, "name") == filename && count("fwrite") == 0 && count("oscreate") == 0 && count("osremove") == 0 && count("osrename") == 0
  ensures err == nil ==> len(f) == 88 && fromle(sub(f, 0, 8)) <= 2147483647 && bytes(key) == keyOf(passphrase, f)
  ensures err != nil ==> key == nil

# at every moment the key file is the old one or, after the last step, the complete new one
func replaceKeyfile(filename, oldPassphrase, newPassphrase, newIter) (err)
  prop E01
  inline
  post old = evcat("read", "data")
  post img = evcat("fwrite", "b")
  at oscreate: evlast("oscreate", 0, "name") == cat(filename, ".new")
  at osremove: evlast("osremove", 0, "name") == cat(filename, ".new") && count("osrename") == 0
  at osrename: evlast("osrename", 0, "from") == cat(filename, ".new") && evlast("osrename", 0, "to") == filename && count("osrename") == 1 && count("fclose") == 2
  at osrename: evlast("oscreate", 0, "name") == cat(filename, ".new") && evlast("osopen", 0, "name") == filename && count("osopen") == 1
  at osrename: evcat("fwrite", "b") == keyImage(newPassphrase, newIter, sub(evcat("fwrite", "b"), 8, 40), sub(evcat("fwrite", "b"), 40, 56), keyOf(oldPassphrase, sub(evcat("read", "data"), 0, 88)))
  ensures count("fwrite") == 0 || count("oscreate") == 1
  ensures err == nil ==> count("osrename") == 1 && evlast("osrename", 0, "err") == nil

def dsn(f, key) = cat(f, "?_pragma_key=x'", hexenc(key), "'&_pragma_cipher_page_size=4096")

func createTables(db, createStmts) (err)
  prop E01
  inline
  requires db != nil
  loop 0: forall(i, 0, iter, true)
  ensures true

# the database is opened with the key of its key file, and only if it is encrypted and the key is right
func Open(dbname, passphrase) (db, err)
  prop E01
  inline
  post dbfile = cat(dbname, ".db")
  at sqlopen: evlast("sqlopen", 0, "driver") == "sqlite3" && evlast("osopen", 0, "name") == cat(dbname, ".key") && evlast("sqlopen", 0, "dsn") == cat(dsn(cat(dbname, ".db"), keyOf(passphrase, sub(evcat("read", "data"), 0, 88))), "&_foreign_keys=1")
  at sqlopen: evlast("isencrypted", 0, "filename") == cat(dbname, ".db") && evlast("isencrypted", 0, "r") && evlast("isencrypted", 0, "err") == nil
  ensures (err == nil) == (db != nil)
  ensures err == nil ==> count("sqlopen") == 1 && db == evlast("sqlopen", 0, "db") && len(evcat("read", "data")) == 88
  ensures err == nil ==> count("dbexec") == 1 && evlast("dbexec", 0, "db") == db && evlast("dbexec", 0, "err") == nil && evlast("dbexec", 0, "query") == "SELECT count(*) FROM sqlite_master;"
  ensures count("oscreate") == 0 && count("osremove") == 0 && count("osrename") == 0 && count("fwrite") == 0

# nothing is written before the old passphrase has opened the database
func Rekey(dbname, oldPassphrase, newPassphrase, newIter) (err)
  prop E01
  event dbrekey
  at oscreate: count("dbexec") == 1 && evlast("dbexec", 0, "err") == nil && evlast("oscreate", 0, "name") == cat(dbname, ".key.new")
  at osremove: count("dbexec") == 1 && evlast("dbexec", 0, "err") == nil && evlast("osremove", 0, "name") == cat(dbname, ".key.new")
  at osrename: evlast("osrename", 0, "from") == cat(dbname, ".key.new") && evlast("osrename", 0, "to") == cat(dbname, ".key") && count("osrename") == 1
  at osrename: evcat("fwrite", "b") == keyImage(newPassphrase, newIter, sub(evcat("fwrite", "b"), 8, 40), sub(evcat("fwrite", "b"), 40, 56), keyOf(oldPassphrase, sub(evcat("read", "data"), 88, 176)))
  ensures err == nil ==> count("osrename") == 1 && evlast("osrename", 0, "err") == nil

# a database is made only if neither file existed, with the key of its new key file
func Create(dbname, passphrase, iter, createStmts) (err)
  prop E01
  event dbcreate
  at oscreate: evlast("oscreate", 0, "name") == cat(dbname, ".key") && count("osstat") >= 2 && evarg("osstat", 0, "name") == cat(dbname, ".db") && evarg("isnotexist", 0, "r") && evarg("osstat", 0, "err") != nil
  at sqlopen: evlast("sqlopen", 0, "driver") == "sqlite3" && evlast("sqlopen", 0, "dsn") == dsn(cat(dbname, ".db"), evarg("read", 0, "data"))
  at sqlopen: evcat("fwrite", "b") == keyImage(passphrase, iter, sub(evcat("fwrite", "b"), 8, 40), sub(evcat("fwrite", "b"), 40, 56), evarg("read", 0, "data"))
  ensures count("osremove") == 0 && count("osrename") == 0
  ensures err == nil ==> count("sqlopen") == 1 && evlast("isencrypted", 0, "filename") == cat(dbname, ".db") && evlast("isencrypted", 0, "r") && evlast("isencrypted", 0, "err") == nil

# ---- the two databases are made and rekeyed by exactly these calls

package mute/keydb

func Rekey(dbname, oldPassphrase, newPassphrase, newIter) (err)
  prop E01
  event keydbrekey
  ensures count("dbrekey") == 1 && evarg("dbrekey", 0, "dbname") == dbname && bytes(evarg("dbrekey", 0, "oldPassphrase")) == old(bytes(oldPassphrase)) && bytes(evarg("dbrekey", 0, "newPassphrase")) == old(bytes(newPassphrase)) && evarg("dbrekey", 0, "newIter") == newIter && err == evarg("dbrekey", 0, "err")

func Create(dbname, passphrase, iter) (err)
  prop E01
  event keydbcreate
  at dbcreate: evarg("dbcreate", 0, "dbname") == dbname && bytes(evarg("dbcreate", 0, "passphrase")) == bytes(passphrase) && evarg("dbcreate", 0, "iter") == iter && len(evarg("dbcreate", 0, "createStmts")) == 10
  ensures count("dbcreate") == 1
  ensures err == nil ==> evarg("dbcreate", 0, "err") == nil

package mute/msgdb

func Rekey(dbname, oldPassphrase, newPassphrase, newIter) (err)
  prop E01
  ensures count("dbrekey") == 1 && evarg("dbrekey", 0, "dbname") == dbname && bytes(evarg("dbrekey", 0, "oldPassphrase")) == old(bytes(oldPassphrase)) && bytes(evarg("dbrekey", 0, "newPassphrase")) == old(bytes(newPassphrase)) && evarg("dbrekey", 0, "newIter") == newIter && err == evarg("dbrekey", 0, "err")

func Create(dbname, passphrase, iter) (err)
  prop E01
  at dbcreate: evarg("dbcreate", 0, "dbname") == dbname && bytes(evarg("dbcreate", 0, "passphrase")) == bytes(passphrase) && evarg("dbcreate", 0, "iter") == iter && len(evarg("dbcreate", 0, "createStmts")) == 10
  ensures count("dbcreate") == 1
  ensures err == nil ==> evarg("dbcreate", 0, "err") == nil

# ---- the engine makes and rekeys its key database only with a passphrase entered twice in the same way

extern path/filepath.Join(elem) (r)
  why standard library
  event fpjoin

extern (*bufio.Scanner).Scan(s) (r)
  why standard library: any outcome; that a later Scan may overwrite what Bytes returned is left to the driver of E01
  event scan
extern (*bufio.Scanner).Bytes(s) (r)
  why standard library: the line read
  event scanbytes
extern (*bufio.Scanner).Err(s) (r)
  why standard library: any outcome
  event scanerr
extern bufio.NewScanner(r) (s)
  why standard library
  event newscanner
  ensures s != nil

package mute/cryptengine

func (*CryptEngine).dbCreate(ce, homedir, iterations) (err)
  prop E01
  requires ce.fileTable != nil
  post n = count("scanbytes")
  at keydbcreate: count("newscanner") == 1 && unbox(evarg("newscanner", 0, "r")) == ce.fileTable.PassphraseFP
  at keydbcreate: count("keydbcreate") == 1 && evarg("keydbcreate", 0, "iter") == iterations && count("fpjoin") == 1 && evarg("keydbcreate", 0, "dbname") == evarg("fpjoin", 0, "r") && len(evarg("fpjoin", 0, "elem")) == 2 && evarg("fpjoin", 0, "elem")[0] == homedir && evarg("fpjoin", 0, "elem")[1] == "keys" && n <= 2 && count("scan") == 2
  at keydbcreate: n == 2 ==> bytes(evarg("scanbytes", 0, "r")) == bytes(evarg("keydbcreate", 0, "passphrase")) && bytes(evarg("scanbytes", 1, "r")) == bytes(evarg("keydbcreate", 0, "passphrase"))
  at keydbcreate: n < 2 ==> evarg("scanerr", 0, "r") == nil && evlast("scanerr", 0, "r") == nil && len(evarg("keydbcreate", 0, "passphrase")) == 0
  ensures err == nil ==> count("keydbcreate") == 1 && evarg("keydbcreate", 0, "err") == nil

func (*CryptEngine).dbRekey(ce, homedir, iterations) (err)
  prop E01
  requires ce.fileTable != nil
  post n = count("scanbytes")
  at keydbrekey: count("newscanner") == 1 && unbox(evarg("newscanner", 0, "r")) == ce.fileTable.PassphraseFP
  at keydbrekey: count("keydbrekey") == 1 && evarg("keydbrekey", 0, "newIter") == iterations && count("fpjoin") == 1 && evarg("keydbrekey", 0, "dbname") == evarg("fpjoin", 0, "r") && len(evarg("fpjoin", 0, "elem")) == 2 && evarg("fpjoin", 0, "elem")[0] == homedir && evarg("fpjoin", 0, "elem")[1] == "keys" && n <= 3 && count("scan") == 3
  at keydbrekey: n == 3 ==> bytes(evarg("scanbytes", 0, "r")) == bytes(evarg("keydbrekey", 0, "oldPassphrase")) && bytes(evarg("scanbytes", 1, "r")) == bytes(evarg("keydbrekey", 0, "newPassphrase")) && bytes(evarg("scanbytes", 2, "r")) == bytes(evarg("keydbrekey", 0, "newPassphrase"))
  ensures err == nil ==> count("keydbrekey") == 1 && evarg("keydbrekey", 0, "err") == nil
