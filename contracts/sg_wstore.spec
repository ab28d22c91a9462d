# the wallet store: which statement gets which values, and what is made of its answers

package sql database/sql
package client mute/serviceguard/client

# the token hash was a row of these rows
logic rowval(Val, Bytes) Bool
# the hash is that of a row of these rows
logic rowhash(Val, Bytes) Bool
axiom rowHashDef (r Val, b Bytes) imp(rowval(r, b) && hexok(b), rowhash(r, hexdec(b)))

extern (*sql.Stmt).Query(s, args) (rows, err)
  why database/sql
  event sqlrowsquery
  ensures err == nil ==> rows != nil

extern (*sql.Rows).Next(rows) (r)
  why database/sql

extern (*sql.Rows).Close(rows) (err)
  why database/sql

extern (*sql.Rows).Scan(rows, dest) (err)
  why database/sql: the columns of the current row, or an error
  outs dest
  ensures err == nil && len(dest) == 1 ==> imp(isbox(dest[0], "*string"), rowval(ptrof(rows), dest0)) && imp(isbox(dest[0], "*int64"), rownum(ptrof(rows), dest0))
  ensures err == nil && len(dest) == 2 ==> contactrow(ptrof(rows), shown(dest1, dest0))
  ensures err == nil && len(dest) == 3 ==> nymrow(ptrof(rows), true, dest0) && nymrow(ptrof(rows), false, shown(dest2, dest1))
  ensures err == nil && len(dest) == 8 ==> msgrow(ptrof(rows), dest0, dest1, dest2, dest3 == 0, dest4 > 0, dest5, dest6, dest7 > 0)

package mute/serviceguard/client/walletstore

def walletHash(rows, h) = rowhash(ptrof(rows), h)
def wfWS(ws) = ws != nil && ws.cacheMutex != nil
def wsOwned(t) = t.OwnerPrivKey != nil
def wsHasParams(t) = t.Params != nil
def wsHasState(t) = t.ServerPacket != nil || t.BlindingFactors != nil || t.NewOwnerPrivKey != nil
# the columns and the state text hold the token
def wsState(t, s) = bytes(s.Params) == bytes(t.Params) && bytes(s.ServerPacket) == bytes(t.ServerPacket) && bytes(s.BlindingFactors) == bytes(t.BlindingFactors) && imp(t.NewOwnerPubKey != nil, bytes(s.NewOwnerPubKey) == bytes(t.NewOwnerPubKey)) && imp(t.NewOwnerPubKey == nil, len(s.NewOwnerPubKey) == 0) && imp(t.NewOwnerPrivKey != nil, bytes(s.NewOwnerPrivKey) == bytes(t.NewOwnerPrivKey)) && imp(t.NewOwnerPrivKey == nil, len(s.NewOwnerPrivKey) == 0)

func encodeToken(token) (global, state)
  prop S06
  event encwtoken
  quiet
  fresh global
  requires token != nil && token.OwnerPubKey != nil
  ensures global != nil
  ensures global.Hash == hexenc(bytes(token.Hash)) && global.Token == b64enc(bytes(token.Token)) && global.OwnerPubKey == b64enc(bytes(token.OwnerPubKey))
  ensures global.OwnedSelf == wsOwned(token) && global.OwnerPrivKey == ite(wsOwned(token), b64enc(bytes(token.OwnerPrivKey)), "")
  ensures global.Renewable == token.Renewable && global.CanReissue == token.CanReissue && global.Usage == token.Usage && global.Expire == token.Expire
  ensures global.HasParams == wsHasParams(token) && global.HasState == wsHasState(token)
  post s = unasn1("TokenEntryDBState", b64dec(state))
  ensures wsHasParams(token) || wsHasState(token) ==> b64ok(state) && asn1ok("TokenEntryDBState", b64dec(state)) && wsState(token, s)
  ensures !wsHasParams(token) && !wsHasState(token) ==> state == ""

func decodeToken(global, state) (token, err)
  prop S06
  event decwtoken
  quiet
  fresh token
  requires global != nil
  let st = global.HasState || global.HasParams
  let s = unasn1("TokenEntryDBState", b64dec(state))
  ensures (err == nil) == (hexok(global.Hash) && b64ok(global.OwnerPubKey) && b64ok(global.Token) && imp(global.OwnedSelf, b64ok(global.OwnerPrivKey)) && imp(st, b64ok(state) && asn1ok("TokenEntryDBState", b64dec(state))))
  ensures (err == nil) == (token != nil)
  ensures err == nil ==> bytes(token.Hash) == hexdec(global.Hash) && bytes(token.Token) == b64dec(global.Token)
  ensures err == nil ==> token.OwnerPubKey != nil && bytes(token.OwnerPubKey) == over(b64dec(global.OwnerPubKey), zeros(32))
  ensures err == nil ==> (token.OwnerPrivKey != nil) == global.OwnedSelf
  ensures err == nil && global.OwnedSelf ==> bytes(token.OwnerPrivKey) == over(b64dec(global.OwnerPrivKey), zeros(64))
  ensures err == nil ==> token.Renewable == global.Renewable && token.CanReissue == global.CanReissue && token.Usage == global.Usage && token.Expire == global.Expire
  ensures err == nil && !st ==> token.Params == nil && token.ServerPacket == nil && token.BlindingFactors == nil && token.NewOwnerPubKey == nil && token.NewOwnerPrivKey == nil
  ensures err == nil && st ==> bytes(token.Params) == bytes(s.Params) && bytes(token.ServerPacket) == bytes(s.ServerPacket) && bytes(token.BlindingFactors) == bytes(s.BlindingFactors)
  ensures err == nil && st ==> (token.NewOwnerPubKey != nil) == (len(s.NewOwnerPubKey) == 32) && (token.NewOwnerPrivKey != nil) == (len(s.NewOwnerPrivKey) == 64)
  ensures err == nil && st && len(s.NewOwnerPubKey) == 32 ==> bytes(token.NewOwnerPubKey) == bytes(s.NewOwnerPubKey)
  ensures err == nil && st && len(s.NewOwnerPrivKey) == 64 ==> bytes(token.NewOwnerPrivKey) == bytes(s.NewOwnerPrivKey)
  ensures err == nil && st && len(s.Params) == 0 ==> token.Params == nil

# what is written reads back
lemma walletColumns [S06] (h Bytes, t Bytes, k Bytes32, p Bytes64) hexok(hexenc(h)) && hexdec(hexenc(h)) == h && b64ok(b64enc(t)) && b64dec(b64enc(t)) == t && over(b64dec(b64enc(k)), zeros(32)) == k && over(b64dec(b64enc(p)), zeros(64)) == p

func getLockID() (id)
  prop S06
  ensures 0 < id && id <= 2147483648

func (*Storage).CleanLocks(ws, force)
  prop S06
  event cleanlocks
  quiet
  at sqlexec: exS(0) == ws.cleanLocksQuery && len(evlast("sqlexec", 0, "args")) == 1 && isbox(evlast("sqlexec", 0, "args")[0], "int64")
  at sqlexec: force ==> exA(0) == 4294967295
  at sqlexec: !force && -4611686018427387904 < MaxLockAge && MaxLockAge < 4611686018427387904 && evlast("now", 0, "t") < 4611686018427387904 ==> exA(0) == evlast("now", 0, "t") - MaxLockAge
  ensures count("sqlexec") == 1

# the token is written as it is, over the columns of the token of the same hash if there is one
def wsCols(a, g) = unbox(a[0]) == g.Hash && unbox(a[1]) == g.Token && unbox(a[2]) == g.OwnerPubKey && unbox(a[3]) == g.OwnerPrivKey && unbox(a[4]) == g.Renewable && unbox(a[5]) == g.CanReissue && unbox(a[6]) == g.Usage && unbox(a[7]) == g.Expire && unbox(a[8]) == g.OwnedSelf && unbox(a[9]) == g.HasParams && unbox(a[10]) == g.HasState
func (*Storage).SetToken(ws, tokenEntry) (err)
  prop S06
  event setwtoken
  quiet
  requires tokenEntry.OwnerPubKey != nil
  post g = evlast("encwtoken", 0, "global")
  post state = evlast("encwtoken", 0, "state")
  at sqlexec: count("encwtoken") == 1 && *evlast("encwtoken", 0, "token") == tokenEntry
  at sqlexec: count("sqlexec") == 1 ==> exS(0) == ws.setTokenQuery && len(evlast("sqlexec", 0, "args")) == 11 && wsCols(evlast("sqlexec", 0, "args"), g)
  at sqlexec: exS(0) == ws.setTokenQuery || exS(0) == ws.setTokenUpdateQuery || exS(0) == ws.setStateQuery || exS(0) == ws.setStateUpdateQuery
  at sqlexec: len(evlast("sqlexec", 0, "args")) == 12 ==> count("sqlexec") == 2 && exS(0) == ws.setTokenUpdateQuery && evlast("sqlexec", 1, "err") != nil && wsCols(evlast("sqlexec", 0, "args"), g) && exA(11) == g.Hash
  ensures err == nil ==> count("encwtoken") == 1 && evlast("encwtoken", 0, "token") != nil
  # without an error the columns were written, and the state if there is one
  ensures err == nil && len(state) == 0 && count("sqlexec") > 1 || err == nil && len(state) > 0 && count("sqlexec") > 2 ==> count("getwtoken") == 1 && evlast("getwtoken", 0, "err") == nil && evlast("getwtoken", 0, "tokenHash") == tokenEntry.Hash
  ensures err == nil && len(state) == 0 ==> evlast("sqlexec", 0, "err") == nil && (exS(0) == ws.setTokenQuery || exS(0) == ws.setTokenUpdateQuery)
  ensures err == nil && len(state) > 0 ==> evlast("sqlexec", 0, "err") == nil && count("sqlexec") >= 2 && count("sqlexec") <= 4 && len(evlast("sqlexec", 0, "args")) == 2
  ensures err == nil && len(state) > 0 && exS(0) == ws.setStateQuery && exS(0) != ws.setStateUpdateQuery ==> exA(0) == g.Hash && exA(1) == state
  ensures err == nil && len(state) > 0 && exS(0) != ws.setStateQuery ==> exS(0) == ws.setStateUpdateQuery && exA(0) == state && exA(1) == g.Hash

func (*Storage).GetToken(ws, tokenHash, lockID) (tokenEntry, err)
  prop S06
  event getwtoken
  quiet
  fresh tokenEntry
  let hs = hexenc(bytes(tokenHash))
  at sqlquery: count("sqlquery") <= 2 && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == hs && (quS(0) == ws.getTokenQuery && count("sqlquery") == 1 || quS(0) == ws.getStateQuery && count("sqlquery") == 2)
  at decwtoken: evarg("sqlscan", 0, "err") == nil && evarg("sqlscan", 0, "row") == evarg("sqlquery", 0, "row")
  post g = evlast("decwtoken", 0, "global")
  at decwtoken: g.Hash == evarg("sqlscan", 0, "dest1") && g.Token == evarg("sqlscan", 0, "dest2") && g.OwnerPubKey == evarg("sqlscan", 0, "dest3") && g.OwnerPrivKey == evarg("sqlscan", 0, "dest4")
  at decwtoken: g.Renewable == evarg("sqlscan", 0, "dest5") && g.CanReissue == evarg("sqlscan", 0, "dest6") && g.Usage == evarg("sqlscan", 0, "dest7") && g.Expire == evarg("sqlscan", 0, "dest8") && g.OwnedSelf == evarg("sqlscan", 0, "dest9") && g.HasParams == evarg("sqlscan", 0, "dest10") && g.HasState == evarg("sqlscan", 0, "dest11")
  at decwtoken: (count("sqlquery") == 2) == (g.HasParams || g.HasState)
  at decwtoken: count("sqlquery") == 2 ==> evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row") && evlast("decwtoken", 0, "state") == evlast("sqlscan", 0, "dest1")
  # a token locked under another ID is not handed out
  let asked = lockID >= 0
  ensures err == nil && asked ==> evarg("sqlscan", 0, "dest0") == 0 || evarg("sqlscan", 0, "dest0") == lockID
  ensures (err == nil) == (tokenEntry != nil)
  ensures err == nil ==> tokenEntry.OwnerPubKey != nil
  ensures (err == nil) ==> count("decwtoken") == 1 && tokenEntry == evlast("decwtoken", 0, "token")
  ensures evarg("sqlscan", 0, "err") == nil && asked && evarg("sqlscan", 0, "dest0") != 0 && evarg("sqlscan", 0, "dest0") != lockID ==> err == client.ErrLocked

func (*Storage).DelToken(ws, tokenHash)
  prop S06
  event delwtoken
  quiet
  let hs = hexenc(bytes(tokenHash))
  at sqlexec: len(evlast("sqlexec", 0, "args")) == 1 && exA(0) == hs && (exS(0) == ws.deleteTokenQuery || exS(0) == ws.deleteStateQuery)
  ensures count("sqlexec") == 2 && (exS(0) == ws.deleteTokenQuery && exS(1) == ws.deleteStateQuery || exS(1) == ws.deleteTokenQuery && exS(0) == ws.deleteStateQuery)

func (*Storage).LockToken(ws, tokenHash) (r)
  prop S06
  event lockwtoken
  quiet
  at sqlexec: exS(0) == ws.lockQuery && len(evlast("sqlexec", 0, "args")) == 3 && exA(2) == hexenc(bytes(tokenHash)) && exA(1) == evlast("now", 0, "t") && exA(0) > 0 && exA(0) <= 2147483648
  ensures r == -1 || r > 0
  ensures r > 0 ==> count("sqlexec") == 1 && evlast("sqlexec", 0, "err") == nil && r == exA(0) && evlast("sqlrows", 0, "n") != 0
  ensures count("sqlexec") == 1 && evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "n") > 0 ==> r > 0

func (*Storage).UnlockToken(ws, tokenHash)
  prop S06
  event unlockwtoken
  quiet
  at sqlexec: exS(0) == ws.unlockQuery && len(evlast("sqlexec", 0, "args")) == 1 && exA(0) == hexenc(bytes(tokenHash))
  ensures count("sqlexec") == 1

# a token that is free, of the usage asked for, locked for the caller before it is handed out
func (*Storage).getAndLockToken(ws, usage, owner) (r, err)
  prop S06
  event tryLock
  quiet
  fresh r
  at sqlquery: count("sqlquery") == 1
  at sqlquery: owner != nil ==> quS(0) == ws.findTokenOwnerQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == b64enc(bytes(owner)) && quA(1) == usage
  at sqlquery: owner == nil ==> quS(0) == ws.findTokenAnyQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == usage
  at lockwtoken: scanned() && bytes(evlast("lockwtoken", 0, "tokenHash")) == hexdec(evlast("sqlscan", 0, "dest0"))
  at getwtoken: evlast("lockwtoken", 0, "r") > 0 && evlast("getwtoken", 0, "tokenHash") == evlast("lockwtoken", 0, "tokenHash") && evlast("getwtoken", 0, "lockID") == evlast("lockwtoken", 0, "r")
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil
  ensures err == nil ==> count("getwtoken") == 1 && r == evlast("getwtoken", 0, "tokenEntry") && evlast("getwtoken", 0, "err") == nil
  ensures count("sqlscan") == 1 && evlast("sqlscan", 0, "err") != nil ==> err == client.ErrNoToken

func (*Storage).GetAndLockToken(ws, usage, owner) (r, err)
  prop S06
  event getlock
  quiet
  fresh r
  loop 0: 0 <= i && i <= 5
  at tryLock: evlast("tryLock", 0, "usage") == usage && evlast("tryLock", 0, "owner") == owner
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil
  ensures err == nil ==> r == evlast("tryLock", 0, "r") && evlast("tryLock", 0, "err") == nil

func (*Storage).FindToken(ws, usage) (r, err)
  prop S06
  event findwtoken
  quiet
  fresh r
  at sqlquery: quS(0) == ws.findTokenSelfQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == usage
  at getwtoken: scanned() && bytes(evlast("getwtoken", 0, "tokenHash")) == hexdec(evlast("sqlscan", 0, "dest0"))
  ensures err == nil ==> r != nil && r.OwnerPubKey != nil
  ensures err == nil ==> count("getwtoken") == 1 && r == evlast("getwtoken", 0, "tokenEntry") && evlast("getwtoken", 0, "err") == nil

func (*Storage).GetExpire(ws) (r)
  prop S06
  event getexpire
  quiet
  fresh r
  at sqlquery: quS(0) == ws.getExpireQuery && len(evlast("sqlquery", 0, "args")) == 1 && imp(0 <= ExpireEdge && ExpireEdge < 4611686018427387904 && evlast("now", 0, "t") < 4611686018427387904, quA(0) == evlast("now", 0, "t") + ExpireEdge)
  ensures r != nil ==> scanned() && bytes(r) == hexdec(evlast("sqlscan", 0, "dest0"))

func (*Storage).GetInReissue(ws) (r)
  prop S06
  event getreissue
  quiet
  fresh r
  at sqlquery: quS(0) == ws.getReissueQuery && len(evlast("sqlquery", 0, "args")) == 0
  ensures r != nil ==> scanned() && bytes(r) == hexdec(evlast("sqlscan", 0, "dest0"))

func (*Storage).GetBalanceOwn(ws, usage) (n)
  prop S06
  event balown
  quiet
  at sqlquery: quS(0) == ws.countOwnQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == usage
  ensures n == ite(scanned(), evlast("sqlscan", 0, "dest0"), 0)

func (*Storage).GetBalance(ws, usage, owner) (n)
  prop S06
  event balance
  quiet
  at sqlquery: owner != nil ==> quS(0) == ws.countOwnerQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == usage && quA(1) == b64enc(bytes(owner))
  at sqlquery: owner == nil ==> quS(0) == ws.countAnyQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == usage
  ensures n == ite(scanned(), evlast("sqlscan", 0, "dest0"), 0)

# only tokens that expired at least ExpireEdge ago are deleted
func (*Storage).ExpireUnusable(ws) (r)
  prop S06
  event expireunusable
  quiet
  post rows = evarg("sqlrowsquery", 0, "rows")
  loop 0: counted == len(tokens) && forall(j, 0, len(tokens), walletHash(rows, bytes(tokens[j])))
  at delwtoken: walletHash(rows, bytes(evlast("delwtoken", 0, "tokenHash")))
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == ws.finalExpireQuery && len(evlast("sqlrowsquery", 0, "args")) == 1 && imp(0 <= ExpireEdge && ExpireEdge < 4611686018427387904 && evlast("now", 0, "t") < 4611686018427387904, unbox(evlast("sqlrowsquery", 0, "args")[0]) == evlast("now", 0, "t") - ExpireEdge)
  ensures count("sqlexec") == 0 || count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil

# the cache of the store: its authentication token and keys
def wsKeys(ks, ds) = len(ds) == len(ks) && forall(i, 0, len(ks), bytes(ds[i]) == bytes(ks[i]))
func (*CacheData).Marshal(cd) (r)
  prop S06
  event cachemarshal
  quiet
  loop 0: len(cdb.VerifyKeys) == iter && forall(j, 0, iter, bytes(cdb.VerifyKeys[j]) == bytes(cd.VerifyKeys[j]))
  post s = unasn1("CacheDataDB", b64dec(r))
  ensures b64ok(r) && asn1ok("CacheDataDB", b64dec(r))
  ensures cd != nil ==> bytes(s.AuthToken) == bytes(cd.AuthToken) && s.AuthTries == cd.AuthTries && wsKeys(cd.VerifyKeys, s.VerifyKeys)

func (*CacheData).Unmarshal(cd, d) (r, err)
  prop S06
  event cacheunmarshal
  quiet
  modifies cd.AuthToken, cd.AuthTries, cd.VerifyKeys
  requires cd != nil && len(cd.VerifyKeys) == 0
  let s = unasn1("CacheDataDB", b64dec(d))
  loop 0: cd.VerifyKeys != nil && len(cd.VerifyKeys) == iter && forall(j, 0, iter, bytes(cd.VerifyKeys[j]) == over(bytes(s.VerifyKeys[j]), zeros(32)))
  ensures (err == nil) == (b64ok(d) && asn1ok("CacheDataDB", b64dec(d)))
  ensures err == nil ==> r == cd && bytes(r.AuthToken) == bytes(s.AuthToken) && r.AuthTries == s.AuthTries && len(r.VerifyKeys) == len(s.VerifyKeys)
  ensures err == nil ==> forall(j, 0, len(s.VerifyKeys), bytes(r.VerifyKeys[j]) == over(bytes(s.VerifyKeys[j]), zeros(32)))
  ensures err == nil ==> r.VerifyKeys != nil
  ensures err != nil ==> r == nil

func (*Storage).writeCache(ws) (err)
  prop S06
  event writecache
  quiet
  requires wfWS(ws)
  at sqlexec: evlast("cachemarshal", 0, "cd") == ws.cache && len(evlast("sqlexec", 0, "args")) == 2
  at sqlexec: count("sqlexec") == 1 ==> exS(0) == ws.setStateQuery && exA(0) == "CONFIGCACHE" && exA(1) == evlast("cachemarshal", 0, "r")
  at sqlexec: count("sqlexec") == 2 ==> exS(0) == ws.setStateUpdateQuery && evlast("sqlexec", 1, "err") != nil && exA(0) == evlast("cachemarshal", 0, "r") && exA(1) == "CONFIGCACHE"
  ensures 1 <= count("sqlexec") && count("sqlexec") <= 2
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil
  ensures count("sqlexec") == 1 ==> err == nil
  # an update that finds nothing is no success
  ensures err == nil && count("sqlexec") == 2 ==> scanned() && quS(0) == ws.getStateQuery && quA(0) == "CONFIGCACHE"

func (*Storage).readCache(ws)
  prop S06
  inline
  event readcache
  quiet
  requires wfWS(ws)
  modifies ws.cache
  at sqlquery: quS(0) == ws.getStateQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == "CONFIGCACHE"
  at cacheunmarshal: scanned() && evlast("cacheunmarshal", 0, "d") == evlast("sqlscan", 0, "dest1")
  ensures ws.cache == old(ws.cache) || ws.cache != nil
  ensures ws.cache != old(ws.cache) ==> count("cacheunmarshal") == 1 && ws.cache == evlast("cacheunmarshal", 0, "r")
  ensures scanned() && evlast("cacheunmarshal", 0, "err") == nil ==> ws.cache == evlast("cacheunmarshal", 0, "r")

func (*Storage).SetVerifyKeys(ws, verifyKeys)
  prop S06
  event setverify
  quiet
  requires wfWS(ws)
  modifies ws.cache, ws.cache.VerifyKeys
  ensures ws.cache != nil && wsKeys(verifyKeys, ws.cache.VerifyKeys)
  ensures old(ws.cache) != nil ==> ws.cache == old(ws.cache)
  at writecache: wsKeys(verifyKeys, ws.cache.VerifyKeys)
  ensures count("writecache") == 1

func (*Storage).GetVerifyKeys(ws) (r)
  prop S06
  event getverify
  quiet
  requires wfWS(ws)
  modifies ws.cache, ws.cache.VerifyKeys
  ensures old(ws.cache) != nil && old(ws.cache.VerifyKeys) != nil ==> ws.cache == old(ws.cache) && wsKeys(old(ws.cache.VerifyKeys), r)
  ensures ws.cache != nil && wsKeys(r, ws.cache.VerifyKeys)

func (*Storage).SetAuthToken(ws, authToken, tries) (err)
  prop S06
  event setauth
  quiet
  requires wfWS(ws)
  modifies ws.cache, ws.cache.AuthToken, ws.cache.AuthTries
  ensures ws.cache != nil && ws.cache.AuthToken == authToken && ws.cache.AuthTries == tries
  ensures old(ws.cache) != nil ==> ws.cache == old(ws.cache)
  at writecache: ws.cache.AuthToken == authToken && ws.cache.AuthTries == tries
  ensures count("writecache") == 1 && err == evlast("writecache", 0, "err")

func (*Storage).GetAuthToken(ws) (authToken, tries)
  prop S06
  event getauth
  quiet
  requires wfWS(ws)
  modifies ws.cache
  ensures old(ws.cache) != nil ==> ws.cache == old(ws.cache)
  ensures ws.cache != nil ==> authToken == ws.cache.AuthToken && tries == ws.cache.AuthTries
  ensures ws.cache == nil ==> authToken == nil && tries == 0

# every statement is the one its name says
func (*Storage).initDB(ws) (err)
  prop S06
  event initws
  quiet
  requires ws != nil && ws.DB != nil
  modifies ws.setTokenQuery, ws.setTokenUpdateQuery, ws.setStateQuery, ws.setStateUpdateQuery, ws.lockQuery, ws.cleanLocksQuery, ws.unlockQuery, ws.deleteTokenQuery, ws.deleteStateQuery, ws.getTokenQuery, ws.getStateQuery, ws.findTokenSelfQuery, ws.findTokenOwnerQuery, ws.findTokenAnyQuery, ws.getExpireQuery, ws.getReissueQuery, ws.countOwnQuery, ws.countOwnerQuery, ws.countAnyQuery, ws.finalExpireQuery, ws.cacheMutex, ws.cache
  at cleanlocks: !evlast("cleanlocks", 0, "force")
  ensures err == nil ==> wfWS(ws)
  ensures err == nil ==> count("cleanlocks") == 1
  ensures err == nil ==> count("sqlquery") == 1 && evlast("sqlquery", 0, "s") == ws.getStateQuery
  ensures err == nil ==> sqltext(ptrof(ws.setTokenQuery)) == "INSERT INTO walletTokens (LockTime, LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, CanReissue,\n\t\t\t\t\t\t UsageStr, Expire, OwnedSelf, HasParams, HasState) VALUES (0,0,?,?,?,?,?,?,?,?,?,?,?);"
  ensures err == nil ==> sqltext(ptrof(ws.setTokenUpdateQuery)) == "UPDATE walletTokens SET Hash=?, Token=?, OwnerPubKey=?, OwnerPrivKey=?, \n\t\t\t\t\t\tRenewable=?, CanReissue=?, UsageStr=?, Expire=?, OwnedSelf=?, \n\t\t\t\t\t\tHasParams=?, HasState=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.getTokenQuery)) == "SELECT LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, \n\t\t\t\t\t\tCanReissue, UsageStr, Expire, OwnedSelf, HasParams, HasState\n\t\t\t\t\t\tFROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.setStateQuery)) == "INSERT INTO walletState (Hash, State) VALUES (?,?);"
  ensures err == nil ==> sqltext(ptrof(ws.setStateUpdateQuery)) == "UPDATE walletState SET State=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.cleanLocksQuery)) == "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
  ensures err == nil ==> sqltext(ptrof(ws.lockQuery)) == "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
  ensures err == nil ==> sqltext(ptrof(ws.unlockQuery)) == "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.deleteTokenQuery)) == "DELETE FROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.deleteStateQuery)) == "DELETE FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.getStateQuery)) == "SELECT Hash, State FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(ws.findTokenSelfQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(ws.findTokenOwnerQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND OwnerPubKey=? AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(ws.findTokenAnyQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(ws.getExpireQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND Renewable=1 AND HasState=0 AND HasParams=0 AND OwnedSelf=1 AND Expire<? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(ws.getReissueQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=1 ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(ws.countOwnQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(ws.countOwnerQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? AND OwnerPubKey=?;"
  ensures err == nil ==> sqltext(ptrof(ws.countAnyQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(ws.finalExpireQuery)) == "SELECT Hash FROM walletTokens WHERE Expire<? LIMIT 10;"

func NewFromDB(db) (r, err)
  prop S06
  requires db != nil
  fresh r
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> r.DB == db && r.cacheMutex != nil
  ensures err == nil ==> sqltext(ptrof(r.setTokenQuery)) == "INSERT INTO walletTokens (LockTime, LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, CanReissue,\n\t\t\t\t\t\t UsageStr, Expire, OwnedSelf, HasParams, HasState) VALUES (0,0,?,?,?,?,?,?,?,?,?,?,?);"
  ensures err == nil ==> sqltext(ptrof(r.setTokenUpdateQuery)) == "UPDATE walletTokens SET Hash=?, Token=?, OwnerPubKey=?, OwnerPrivKey=?, \n\t\t\t\t\t\tRenewable=?, CanReissue=?, UsageStr=?, Expire=?, OwnedSelf=?, \n\t\t\t\t\t\tHasParams=?, HasState=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.getTokenQuery)) == "SELECT LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, \n\t\t\t\t\t\tCanReissue, UsageStr, Expire, OwnedSelf, HasParams, HasState\n\t\t\t\t\t\tFROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.setStateQuery)) == "INSERT INTO walletState (Hash, State) VALUES (?,?);"
  ensures err == nil ==> sqltext(ptrof(r.setStateUpdateQuery)) == "UPDATE walletState SET State=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.cleanLocksQuery)) == "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
  ensures err == nil ==> sqltext(ptrof(r.lockQuery)) == "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
  ensures err == nil ==> sqltext(ptrof(r.unlockQuery)) == "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.deleteTokenQuery)) == "DELETE FROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.deleteStateQuery)) == "DELETE FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.getStateQuery)) == "SELECT Hash, State FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenSelfQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenOwnerQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND OwnerPubKey=? AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenAnyQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.getExpireQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND Renewable=1 AND HasState=0 AND HasParams=0 AND OwnedSelf=1 AND Expire<? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.getReissueQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=1 ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.countOwnQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(r.countOwnerQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? AND OwnerPubKey=?;"
  ensures err == nil ==> sqltext(ptrof(r.countAnyQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(r.finalExpireQuery)) == "SELECT Hash FROM walletTokens WHERE Expire<? LIMIT 10;"

func NewFromURL(dburl) (r, err)
  prop S06
  fresh r
  at sqlopen: evlast("sqlopen", 0, "driver") == "mysql" && evlast("sqlopen", 0, "dsn") == dburl
  ensures (err == nil) == (r != nil)
  ensures err == nil ==> r.DB == evlast("sqlopen", 0, "db") && r.cacheMutex != nil
  ensures err == nil ==> sqltext(ptrof(r.setTokenQuery)) == "INSERT INTO walletTokens (LockTime, LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, CanReissue,\n\t\t\t\t\t\t UsageStr, Expire, OwnedSelf, HasParams, HasState) VALUES (0,0,?,?,?,?,?,?,?,?,?,?,?);"
  ensures err == nil ==> sqltext(ptrof(r.setTokenUpdateQuery)) == "UPDATE walletTokens SET Hash=?, Token=?, OwnerPubKey=?, OwnerPrivKey=?, \n\t\t\t\t\t\tRenewable=?, CanReissue=?, UsageStr=?, Expire=?, OwnedSelf=?, \n\t\t\t\t\t\tHasParams=?, HasState=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.getTokenQuery)) == "SELECT LockID, Hash, Token, OwnerPubKey, OwnerPrivKey, Renewable, \n\t\t\t\t\t\tCanReissue, UsageStr, Expire, OwnedSelf, HasParams, HasState\n\t\t\t\t\t\tFROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.setStateQuery)) == "INSERT INTO walletState (Hash, State) VALUES (?,?);"
  ensures err == nil ==> sqltext(ptrof(r.setStateUpdateQuery)) == "UPDATE walletState SET State=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.cleanLocksQuery)) == "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
  ensures err == nil ==> sqltext(ptrof(r.lockQuery)) == "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0;"
  ensures err == nil ==> sqltext(ptrof(r.unlockQuery)) == "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.deleteTokenQuery)) == "DELETE FROM walletTokens WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.deleteStateQuery)) == "DELETE FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.getStateQuery)) == "SELECT Hash, State FROM walletState WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenSelfQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenOwnerQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND OwnerPubKey=? AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.findTokenAnyQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.getExpireQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND Renewable=1 AND HasState=0 AND HasParams=0 AND OwnedSelf=1 AND Expire<? ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.getReissueQuery)) == "SELECT Hash FROM walletTokens WHERE LockID=0 AND HasState=1 ORDER BY Expire ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(r.countOwnQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=1 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(r.countOwnerQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=? AND OwnerPubKey=?;"
  ensures err == nil ==> sqltext(ptrof(r.countAnyQuery)) == "SELECT COUNT(*) FROM walletTokens WHERE LockID=0 AND HasState=0 AND OwnedSelf=0 AND UsageStr=?;"
  ensures err == nil ==> sqltext(ptrof(r.finalExpireQuery)) == "SELECT Hash FROM walletTokens WHERE Expire<? LIMIT 10;"
