# the local key database: which statement gets which values, and what is made of its answers

package sql database/sql
package uid mute/uid
package session mute/msg/session
package identity mute/uid/identity

# the text a prepared statement was made from; a statement used within a transaction
logic sqltext(Val) Bytes
logic stmtof(Val) Val
logic txof(Val) Val
# message key (session ID, number, key, direction) was inserted with this statement in this transaction
logic msgkey(Val, Val, Int, Int, Bytes, Int) Bool

extern (*sql.DB).Prepare(db, query) (s, err)
  why database/sql
  event sqlprepare
  ensures err == nil ==> s != nil && sqltext(ptrof(s)) == query

extern (*sql.DB).Begin(db) (tx, err)
  why database/sql
  event sqlbegin
  ensures err == nil ==> tx != nil

extern (*sql.Tx).Stmt(tx, s) (r)
  why database/sql
  ensures r != nil && stmtof(ptrof(r)) == ptrof(s) && txof(ptrof(r)) == ptrof(tx)

extern (*sql.Stmt).Exec(s, args) (r, err)
  why database/sql: the statement was executed with these values
  event sqlexec
  ensures err == nil ==> r != nil
  ensures err == nil && len(args) == 4 ==> imp(isbox(args[0], "int64") && isbox(args[1], "uint64") && isbox(args[2], "string") && isbox(args[3], "int"), msgkey(stmtof(ptrof(s)), txof(ptrof(s)), unbox(args[0], "int64"), unbox(args[1], "uint64"), unbox(args[2], "string"), unbox(args[3], "int")))

extern (*sql.Stmt).QueryRow(s, args) (row)
  why database/sql
  event sqlquery
  ensures row != nil

extern (*sql.Row).Scan(row, dest) (err)
  why database/sql: the columns of the first row, or an error
  event sqlscan
  outs dest

extern (*sql.Tx).Commit(tx) (err)
  why database/sql
  event sqlcommit

extern (*sql.Tx).Rollback(tx) (err)
  why database/sql
  event sqlrollback

iface (sql.Result).RowsAffected(r) (n, err)
  why database/sql: how many rows the statement changed
  event sqlrows

package mute/keydb

def exS(n) = evlast("sqlexec", n, "s")
def exA(i) = unbox(evlast("sqlexec", 0, "args")[i])
def quS(n) = evlast("sqlquery", n, "s")
def quA(i) = unbox(evlast("sqlquery", 0, "args")[i])
# one statement was executed, without an error exactly if err is nil
def exec1(err) = count("sqlexec") == 1 && (err == nil) == (evlast("sqlexec", 0, "err") == nil)
def scanned() = count("sqlquery") == 1 && count("sqlscan") == 1 && evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")

func (*KeyDB).AddPublicUID(k, msg, position) (err)
  prop K03
  event addpub
  quiet
  requires msg != nil
  at sqlexec: exS(0) == k.addPublicUIDQuery && len(evlast("sqlexec", 0, "args")) == 4
  at sqlexec: exA(0) == msg.UIDContent.IDENTITY && exA(1) == msg.UIDContent.MSGCOUNT && exA(2) == position && bytes(exA(3)) == canon(msg)
  ensures exec1(err)
  assumes err == nil ==> pubstored(ptrof(k), msg.UIDContent.IDENTITY, position)

func (*KeyDB).AddPrivateUID(k, msg) (err)
  prop K03
  event addpriv
  quiet
  requires msg != nil && wfPriv(msg.UIDContent.SIGKEY) && len(msg.UIDContent.PUBKEYS) > 0 && wfPriv(msg.UIDContent.PUBKEYS[0])
  maypanic
  at sqlexec: exS(0) == k.addPrivateUIDQuery && len(evlast("sqlexec", 0, "args")) == 6
  at sqlexec: exA(0) == msg.UIDContent.IDENTITY && exA(1) == msg.UIDContent.MSGCOUNT && bytes(exA(2)) == canon(msg) && exA(5) == ""
  at sqlexec: imp(len(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == 64, exA(3) == b64enc(bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey))) && exA(4) == b64enc(bytes(msg.UIDContent.PUBKEYS[0].curve25519Key.privateKey))
  ensures exec1(err)

func (*KeyDB).AddPrivateUIDReply(k, msg, msgReply) (err)
  prop K03
  event addreply
  quiet
  requires msg != nil && msgReply != nil
  at sqlexec: exS(0) == k.addPrivateUIDReplyQuery && len(evlast("sqlexec", 0, "args")) == 2 && bytes(exA(0)) == canon(msgReply) && bytes(exA(1)) == canon(msg)
  ensures exec1(err)

func (*KeyDB).DelPrivateUID(k, msg) (err)
  prop K03
  event delpriv
  quiet
  requires msg != nil
  at sqlexec: exS(0) == k.delPrivateUIDQuery && len(evlast("sqlexec", 0, "args")) == 1 && bytes(exA(0)) == canon(msg)
  ensures exec1(err)

func (*KeyDB).AddPrivateKeyInit(k, ki, pubKeyHash, sigPubKey, privateKey, serverSignature) (err)
  prop K03
  event addprivki
  quiet
  requires ki != nil
  at sqlexec: exS(0) == k.addPrivateKeyInitQuery && len(evlast("sqlexec", 0, "args")) == 6
  at sqlexec: exA(0) == ki.Contents.SIGKEYHASH && exA(1) == pubKeyHash && bytes(exA(2)) == canon(ki) && exA(3) == sigPubKey && exA(4) == privateKey && exA(5) == serverSignature
  ensures exec1(err)

func (*KeyDB).AddPublicKeyInit(k, ki) (err)
  prop K03
  event addpubki
  quiet
  requires ki != nil
  at sqlexec: exS(0) == k.addPublicKeyInitQuery && len(evlast("sqlexec", 0, "args")) == 2 && exA(0) == ki.Contents.SIGKEYHASH && bytes(exA(1)) == canon(ki)
  ensures exec1(err)

# an own ID message of the database signed itself and comes with the private keys if asked for
func (*KeyDB).GetPrivateUID(k, identity, withPrivkeys) (msg, reply, err)
  prop K03
  event privuid
  quiet
  fresh msg, reply
  maypanic
  at sqlquery: quS(0) == k.getPrivateUIDQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == identity
  ensures err == nil ==> msg != nil
  ensures err == nil ==> scanned() 
  post m0 = unjson("uid.Message", evlast("sqlscan", 0, "dest0"))
  ensures err == nil && !withPrivkeys ==> sigOver(msg.UIDContent.SIGKEY.PUBKEY, canon(msg.UIDContent), msg.SELFSIGNATURE)
  ensures err == nil ==> msg.SELFSIGNATURE == m0.SELFSIGNATURE && msg.UIDContent.IDENTITY == m0.UIDContent.IDENTITY && msg.UIDContent.MSGCOUNT == m0.UIDContent.MSGCOUNT && msg.UIDContent.SIGKEY.PUBKEY == m0.UIDContent.SIGKEY.PUBKEY && msg.UIDContent.SIGKEY.FUNCTION == m0.UIDContent.SIGKEY.FUNCTION
  ensures err == nil ==> (reply != nil) == (evlast("sqlscan", 0, "dest3") != "")
  # own messages were made by uid.Create
  assumes err == nil ==> msg.UIDContent.SIGKEY.FUNCTION == "ED25519"
  assumes err == nil && withPrivkeys ==> identOK(msg)
  ensures err == nil && withPrivkeys && msg.UIDContent.SIGKEY.FUNCTION == "ED25519" ==> msg.UIDContent.SIGKEY.ed25519Key != nil && len(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == 64
  ensures err == nil && withPrivkeys && msg.UIDContent.SIGKEY.FUNCTION == "ED25519" ==> bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey) == b64dec(evlast("sqlscan", 0, "dest1"))
  ensures err == nil && withPrivkeys ==> len(msg.UIDContent.PUBKEYS) > 0 && wfPriv(msg.UIDContent.PUBKEYS[0])
  assumes err == nil && withPrivkeys ==> b64ok(msg.UIDContent.SIGKEY.PUBKEY) && b64dec(msg.UIDContent.SIGKEY.PUBKEY) == edpub(bytes(msg.UIDContent.SIGKEY.ed25519Key.privateKey))
  assumes err == nil ==> (reply != nil) == hasreply(ptrof(k), identity)
  assumes err == nil && reply != nil ==> reply.ENTRY.HASHCHAINPOS == replypos(ptrof(k), identity) && reply.ENTRY.HASHCHAINENTRY == replyentry(ptrof(k), identity)

func (*KeyDB).GetPublicUID(k, identity, maxpos) (msg, pos, found, err)
  prop K03
  event pubuid
  quiet
  fresh msg
  at sqlquery: quS(0) == k.getPublicUIDQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == identity && quA(1) == maxpos
  ensures err != nil ==> !found
  ensures found ==> msg != nil
  ensures found ==> scanned() && pos == evlast("sqlscan", 0, "dest1")
  ensures err == nil && !found ==> evlast("sqlscan", 0, "err") != nil
  # only checked messages of others are stored
  assumes found ==> len(msg.UIDContent.PUBKEYS) > 0 && eccVal(msg.UIDContent.PUBKEYS[0]) && wfKE(msg.UIDContent.PUBKEYS[0])
  assumes found ==> pos <= maxpos && pubstored(ptrof(k), identity, pos)

func (*KeyDB).GetPrivateIdentities(k) (r, err)
  prop K03
  event prividall
  quiet
  fresh r
  loop 0: forall(j, 0, len(identities), rowval(ptrof(rows), identities[j]))
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getPrivateIdentitiesQuery && len(evlast("sqlrowsquery", 0, "args")) == 0
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> forall(j, 0, len(r), rowval(ptrof(evlast("sqlrowsquery", 0, "rows")), r[j]))

func (*KeyDB).GetPrivateIdentitiesForDomain(k, domain) (r, err)
  prop K03
  event privids
  quiet
  fresh r
  loop 0: forall(j, 0, len(identities), idok(identities[j]) && iddom(identities[j]) == lower(domain))
  ensures err == nil ==> evarg("prividall", 0, "err") == nil && evarg("prividall", 0, "k") == k
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> forall(j, 0, len(r), idok(r[j]) && iddom(r[j]) == lower(domain))
  # and none is left out
  loop 0: forall(i, 0, iter, imp(iddom(all[i]) == lower(domain), exists(j, 0, len(identities), identities[j] == all[i])))
  ensures err == nil ==> forall(i, 0, len(evarg("prividall", 0, "r")), imp(iddom(evarg("prividall", 0, "r")[i]) == lower(domain), exists(j, 0, len(r), r[j] == evarg("prividall", 0, "r")[i])))

func (*KeyDB).GetPrivateKeyInit(k, pubKeyHash) (ki, sigPubKey, privateKey, err)
  prop K03
  event getprivki
  quiet
  fresh ki
  at sqlquery: quS(0) == k.getPrivateKeyInitQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == pubKeyHash
  ensures err == nil ==> ki != nil
  ensures err == nil ==> scanned() && sigPubKey == evlast("sqlscan", 0, "dest1") && privateKey == evlast("sqlscan", 0, "dest2")

func (*KeyDB).GetPublicKeyInit(k, sigKeyHash) (ki, err)
  prop K03
  event getpubki
  quiet
  fresh ki
  at sqlquery: quS(0) == k.getPublicKeyInitQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == sigKeyHash
  ensures err == nil ==> ki != nil
  ensures err == nil ==> scanned()

func (*KeyDB).AddHashChainEntry(k, domain, position, entry) (err)
  prop K03
  event addhc
  quiet
  at sqlexec: exS(0) == k.addHashChainEntryQuery && len(evlast("sqlexec", 0, "args")) == 3 && exA(0) == lower(domain) && exA(1) == position && exA(2) == entry
  ensures exec1(err)
  assumes err == nil ==> hcstored(ptrof(k), domain, position, entry)

func (*KeyDB).GetLastHashChainPos(k, domain) (pos, found, err)
  prop K03
  event lasthc
  quiet
  at sqlquery: quS(0) == k.getLastHashChainPosQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == lower(domain)
  ensures err != nil ==> !found
  ensures found ==> scanned() && pos == evlast("sqlscan", 0, "dest0")
  ensures err == nil && !found ==> evlast("sqlscan", 0, "err") != nil
  assumes pos <= 9223372036854775807

func (*KeyDB).GetHashChainEntry(k, domain, position) (r, err)
  prop K03
  event gethc
  quiet
  at sqlquery: quS(0) == k.getHashChainEntryQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == lower(domain) && quA(1) == position
  ensures err == nil ==> scanned() && r == evlast("sqlscan", 0, "dest0")
  assumes err == nil ==> r == hcentry(ptrof(k), domain, position)

func (*KeyDB).GetLastHashChainEntry(k, domain) (r, err)
  prop K03
  event lastentry
  quiet
  ensures err == nil ==> evlast("lasthc", 0, "found") && evlast("lasthc", 0, "domain") == lower(domain) && evlast("gethc", 0, "domain") == lower(domain) && evlast("gethc", 0, "position") == evlast("lasthc", 0, "pos") && r == evlast("gethc", 0, "r")

func (*KeyDB).DelHashChain(k, domain) (err)
  prop K03
  event delhc
  quiet
  at sqlexec: exS(0) == k.delHashChainQuery && len(evlast("sqlexec", 0, "args")) == 1 && exA(0) == lower(domain)
  ensures exec1(err)

func (*KeyDB).GetSession(k, sessionKey) (rootKeyHash, chainKey, numOfKeys, err)
  prop K03
  event getsession
  quiet
  at sqlquery: quS(0) == k.getSessionQuery && len(evlast("sqlquery", 0, "args")) == 1 && quA(0) == sessionKey
  ensures err == nil ==> scanned() && rootKeyHash == evlast("sqlscan", 0, "dest0") && chainKey == evlast("sqlscan", 0, "dest1") && numOfKeys == evlast("sqlscan", 0, "dest2") % 18446744073709551616

def exTx(q) = stmtof(ptrof(exS(0))) == ptrof(q) && txof(ptrof(exS(0))) == ptrof(evlast("sqlbegin", 0, "tx"))

# a session and all its new message keys are stored in one transaction
func (*KeyDB).AddSession(k, sessionKey, rootKeyHash, chainKey, send, recv) (err)
  prop K03
  event addsession
  quiet
  post tx = evarg("sqlbegin", 0, "tx")
  post q = ptrof(k.addMessageKeyQuery)
  post off = evarg("getsession", 0, "numOfKeys")
  loop 0: forall(j, 0, iter, msgkey(q, ptrof(tx), sessionID, (off + j) % 18446744073709551616, send[j], 1) && msgkey(q, ptrof(tx), sessionID, (off + j) % 18446744073709551616, recv[j], 0))
  at sqlexec: exTx(k.insertSessionQuery) || exTx(k.updateSessionQuery) || exTx(k.addMessageKeyQuery)
  at sqlexec: count("sqlscan") == 0 && len(evlast("sqlexec", 0, "args")) == 4 ==> exTx(k.insertSessionQuery) && evlast("getsession", 0, "err") == sql.ErrNoRows && exA(0) == sessionKey && exA(1) == rootKeyHash && exA(2) == chainKey && exA(3) == len(send)
  at sqlexec: count("sqlscan") == 0 && len(evlast("sqlexec", 0, "args")) == 3 ==> exTx(k.updateSessionQuery) && evlast("getsession", 0, "err") == nil && exA(0) == chainKey && exA(1) == (off + len(send)) % 18446744073709551616 && exA(2) == sessionKey
  at sqlcommit: forall(j, 0, len(send), msgkey(q, ptrof(tx), evlast("sqlscan", 0, "dest0"), (off + j) % 18446744073709551616, send[j], 1) && msgkey(q, ptrof(tx), evlast("sqlscan", 0, "dest0"), (off + j) % 18446744073709551616, recv[j], 0))
  at sqlcommit: evlast("sqlcommit", 0, "tx") == tx
  ensures err == nil ==> count("sqlcommit") == 1 && evlast("sqlcommit", 0, "err") == nil && evlast("getsession", 0, "sessionKey") == sessionKey
  ensures err == nil ==> len(send) == len(recv)
  ensures err != nil && count("sqlbegin") == 1 && evlast("sqlbegin", 0, "err") == nil && count("sqlcommit") == 0 ==> count("sqlrollback") >= 1 && evlast("sqlrollback", 0, "tx") == evlast("sqlbegin", 0, "tx")

func (*KeyDB).GetMessageKey(k, sessionKey, sender, msgIndex) (r, err)
  prop K03
  event dbkey
  quiet
  ensures err == nil ==> count("sqlquery") == 2 && quS(1) == k.getSessionIDQuery && quS(0) == k.getMessageKeyQuery && unbox(evlast("sqlquery", 1, "args")[0]) == sessionKey
  ensures err == nil ==> quA(0) == evlast("sqlscan", 1, "dest0") && quA(1) == msgIndex && quA(2) == ite(sender, 1, 0)
  ensures err == nil ==> evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 1, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row") && evlast("sqlscan", 1, "row") == evlast("sqlquery", 1, "row") && r == evlast("sqlscan", 0, "dest0")

func (*KeyDB).DelMessageKey(k, sessionKey, sender, msgIndex) (err)
  prop K03
  event dbdelkey
  quiet
  at sqlexec: quS(0) == k.getSessionIDQuery && quA(0) == sessionKey && evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
  at sqlexec: exS(0) == k.delMessageKeyQuery && exA(0) == evlast("sqlscan", 0, "dest0") && exA(1) == msgIndex && exA(2) == ite(sender, 1, 0)
  ensures err == nil ==> exec1(err)

func (*KeyDB).AddSessionKey(k, hash, json, privKey, cleanupTime) (err)
  prop K03
  event addsk
  quiet
  at sqlexec: exS(0) == k.insertSessionKeyQuery && exA(0) == hash && exA(1) == json && exA(2) == privKey && exA(3) == cleanupTime
  ensures err == nil ==> exec1(err)

func (*KeyDB).GetSessionKey(k, hash) (json, privKey, err)
  prop K03
  event getsk
  quiet
  at sqlquery: quS(0) == k.getSessionKeyQuery && quA(0) == hash
  ensures err == nil ==> scanned() && json == evlast("sqlscan", 0, "dest0") && privKey == evlast("sqlscan", 0, "dest1")

func (*KeyDB).DelPrivSessionKey(k, hash) (err)
  prop K03
  event delsk
  quiet
  at sqlexec: exS(0) == k.updateSessionKeyQuery && exA(0) == "" && exA(1) == hash
  ensures err == nil ==> exec1(err)

func (*KeyDB).AddValue(k, key, value) (err)
  prop K03
  event addvalue
  quiet
  at sqlexec: exS(0) == k.updateValueQuery || exS(0) == k.insertValueQuery
  at sqlexec: exS(0) == k.updateValueQuery && exS(0) != k.insertValueQuery ==> exA(0) == value && exA(1) == key
  at sqlexec: count("sqlexec") == 2 ==> exS(0) == k.insertValueQuery && exS(1) == k.updateValueQuery && exA(0) == key && exA(1) == value && evlast("sqlrows", 0, "n") == 0
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "err") == nil && (count("sqlexec") == 2) == (evlast("sqlrows", 0, "n") == 0)

func (*KeyDB).GetValue(k, key) (r, err)
  prop K03
  event getvalue
  quiet
  at sqlquery: quS(0) == k.getValueQuery && quA(0) == key
  ensures err == nil && evlast("sqlscan", 0, "err") == nil ==> r == evlast("sqlscan", 0, "dest0")
  ensures err == nil && evlast("sqlscan", 0, "err") != nil ==> r == "" && evlast("sqlscan", 0, "err") == sql.ErrNoRows


# every part of a session state in its column, whether it is replaced or new
func (*KeyDB).SetSessionState(k, sessionStateKey, s) (err)
  prop K03
  event setstate
  quiet
  at sqlexec: exS(0) == k.updateSessionStateQuery || exS(0) == k.insertSessionStateQuery && count("sqlexec") == 2 && exS(1) == k.updateSessionStateQuery && evlast("sqlrows", 0, "n") == 0
  at sqlexec: count("sqlexec") == 1 ==> exA(0) == s.SenderSessionCount && exA(1) == s.SenderMessageCount && exA(2) == s.MaxRecipientCount && bytes(exA(3)) == canon(s.RecipientTemp) && bytes(exA(4)) == canon(s.SenderSessionPub) && exA(7) == s.NymAddress && exA(8) == ite(s.KeyInitSession, 1, 0) && exA(9) == sessionStateKey
  at sqlexec: count("sqlexec") == 1 ==> exA(5) == ite(s.NextSenderSessionPub == nil, "", canon(s.NextSenderSessionPub)) && exA(6) == ite(s.NextRecipientSessionPubSeen == nil, "", canon(s.NextRecipientSessionPubSeen))
  at sqlexec: count("sqlexec") == 2 ==> exA(0) == sessionStateKey && exA(1) == s.SenderSessionCount && exA(2) == s.SenderMessageCount && exA(3) == s.MaxRecipientCount && bytes(exA(4)) == canon(s.RecipientTemp) && bytes(exA(5)) == canon(s.SenderSessionPub) && exA(8) == s.NymAddress && exA(9) == ite(s.KeyInitSession, 1, 0)
  at sqlexec: count("sqlexec") == 2 ==> exA(6) == ite(s.NextSenderSessionPub == nil, "", canon(s.NextSenderSessionPub)) && exA(7) == ite(s.NextRecipientSessionPubSeen == nil, "", canon(s.NextRecipientSessionPubSeen))
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "err") == nil && (count("sqlexec") == 2) == (evlast("sqlrows", 0, "n") == 0)


func (*KeyDB).GetSessionState(k, sessionStateKey) (s, err)
  prop K03
  event getstate
  quiet
  fresh s
  at sqlquery: quS(0) == k.getSessionStateQuery && quA(0) == sessionStateKey
  ensures s != nil ==> err == nil && scanned()
  ensures s != nil ==> s.SenderSessionCount == evlast("sqlscan", 0, "dest0") % 18446744073709551616 && s.SenderMessageCount == evlast("sqlscan", 0, "dest1") % 18446744073709551616 && s.MaxRecipientCount == evlast("sqlscan", 0, "dest2") % 18446744073709551616
  ensures s != nil ==> s.NymAddress == evlast("sqlscan", 0, "dest7") && s.KeyInitSession == (evlast("sqlscan", 0, "dest8") > 0)
  ensures s != nil ==> (s.NextSenderSessionPub == nil) == (evlast("sqlscan", 0, "dest5") == "") && (s.NextRecipientSessionPubSeen == nil) == (evlast("sqlscan", 0, "dest6") == "")
  ensures err == nil && s == nil ==> evlast("sqlscan", 0, "err") == sql.ErrNoRows

# every statement is the one its name says
func Open(dbname, passphrase) (k, err)
  prop K03
  noinline
  ensures (err == nil) == (k != nil)
  ensures err == nil ==> k.encDB != nil
  ensures err == nil ==> sqltext(ptrof(k.updateValueQuery)) == "UPDATE KeyValueStore SET ValueEntry=? WHERE KeyEntry=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertValueQuery)) == "INSERT INTO KeyValueStore (KeyEntry, ValueEntry) VALUES (?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getValueQuery)) == "SELECT ValueEntry FROM KeyValueStore WHERE KeyEntry=?;"
  ensures err == nil ==> sqltext(ptrof(k.addPrivateUIDQuery)) == "INSERT INTO PrivateUIDs (IDENTITY, MSGCOUNT, UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply) VALUES (?, ?, ?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.addPrivateUIDReplyQuery)) == "UPDATE PrivateUIDs SET UIDMessageReply=? WHERE UIDMessage=?;"
  ensures err == nil ==> sqltext(ptrof(k.delPrivateUIDQuery)) == "DELETE FROM PrivateUIDs WHERE UIDMessage=?;"
  ensures err == nil ==> sqltext(ptrof(k.getPrivateIdentitiesQuery)) == "SELECT DISTINCT IDENTITY FROM PrivateUIDs;"
  ensures err == nil ==> sqltext(ptrof(k.getPrivateUIDQuery)) == "SELECT UIDMessage, SIGPRIVKEY, ENCPRIVKEY, UIDMessageReply FROM PrivateUIDs WHERE IDENTITY=? ORDER BY MSGCOUNT DESC;"
  ensures err == nil ==> sqltext(ptrof(k.addPrivateKeyInitQuery)) == "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getPrivateKeyInitQuery)) == "SELECT KeyInit, SigPubKey, PRIVKEY FROM PrivateKeyInits WHERE PUBKEYHASH=?;"
  ensures err == nil ==> sqltext(ptrof(k.addPublicKeyInitQuery)) == "INSERT INTO PublicKeyInits (SIGKEYHASH, KeyInit) VALUES (?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getPublicKeyInitQuery)) == "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=?;"
  ensures err == nil ==> sqltext(ptrof(k.addPublicUIDQuery)) == "INSERT INTO PublicUIDs (IDENTITY, MSGCOUNT, POSITION, UIDMessage) VALUES (?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getPublicUIDQuery)) == "SELECT UIDMessage, POSITION FROM PublicUIDs WHERE IDENTITY=? and POSITION<=? ORDER BY POSITION DESC;"
  ensures err == nil ==> sqltext(ptrof(k.getSessionQuery)) == "SELECT RootKeyHash, ChainKey, NumOfKeys FROM Sessions WHERE SessionKey=?;"
  ensures err == nil ==> sqltext(ptrof(k.getSessionIDQuery)) == "SELECT SessionID FROM Sessions WHERE SessionKey=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateSessionQuery)) == "UPDATE Sessions SET ChainKey=?, NumOfKeys=? WHERE SessionKey=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertSessionQuery)) == "INSERT INTO Sessions(SessionKey, RootKeyHash, ChainKey, NumOfKeys) VALUES (?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.addMessageKeyQuery)) == "INSERT INTO MessageKeys(SessionID, Number, Key, Direction) VALUES (?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.delMessageKeyQuery)) == "DELETE FROM MessageKeys WHERE SessionID=? AND Number=? AND Direction=?;"
  ensures err == nil ==> sqltext(ptrof(k.getMessageKeyQuery)) == "SELECT Key FROM MessageKeys WHERE SessionID=? AND Number=? AND Direction=?;"
  ensures err == nil ==> sqltext(ptrof(k.addHashChainEntryQuery)) == "INSERT INTO Hashchains(Domain, Position, Entry) VALUES (?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getHashChainEntryQuery)) == "SELECT Entry FROM Hashchains WHERE Domain=? AND Position=?;"
  ensures err == nil ==> sqltext(ptrof(k.getLastHashChainPosQuery)) == "SELECT Position FROM Hashchains WHERE Domain=? ORDER BY Position DESC;"
  ensures err == nil ==> sqltext(ptrof(k.delHashChainQuery)) == "DELETE FROM Hashchains WHERE Domain=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateSessionStateQuery)) == "UPDATE SessionStates SET SenderSessionCount=?, SenderMessageCount=?, MaxRecipientCount=?, RecipientTemp=?, SenderSessionPub=?, NextSenderSessionPub=?, NextRecipientSessionPubSeen=?, NymAddress=?, KeyInitSession=? WHERE SessionStateKey=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertSessionStateQuery)) == "INSERT INTO SessionStates (SessionStateKey, SenderSessionCount, SenderMessageCount, MaxRecipientCount, RecipientTemp, SenderSessionPub, NextSenderSessionPub, NextRecipientSessionPubSeen, NymAddress, KeyInitSession) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getSessionStateQuery)) == "SELECT SenderSessionCount, SenderMessageCount, MaxRecipientCount, RecipientTemp, SenderSessionPub, NextSenderSessionPub, NextRecipientSessionPubSeen, NymAddress, KeyInitSession FROM SessionStates WHERE SessionStateKey=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateSessionKeyQuery)) == "UPDATE SessionKeys SET PrivKey=? WHERE Hash=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertSessionKeyQuery)) == "INSERT INTO SessionKeys (Hash, Json, PrivKey, CleanupTime) VALUES (?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getSessionKeyQuery)) == "SELECT Json, PrivKey FROM SessionKeys WHERE Hash=?;"
