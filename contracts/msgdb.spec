# the message database: which statement gets which values, and what is made of its answers

package sql database/sql
package identity mute/uid/identity

# what the columns of a row of these rows say
logic nymrow(Val, Bool, Bytes) Bool
logic contactrow(Val, Bytes) Bool
logic rownum(Val, Int) Bool
logic msgrow(Val, Int, Bytes, Bytes, Bool, Bool, Int, Bytes, Bool) Bool

extern (*sql.Rows).Err(rows) (err)
  why database/sql
  event sqlrowserr

extern strings.SplitN(s, sep, n) (r)
  why standard library: the first part is the text before the first separator
  ensures n == 2 ==> 1 <= len(r) && len(r) <= 2 && r[0] == splitat(s, sep, 0)

package mute/uid/identity

def mappedid(s) = idok(s) && s == cat(maplp(idlp(s)), "@", lower(iddom(s)))
def mapsto(u, s) = idok(u) && s == cat(maplp(idlp(u)), "@", lower(iddom(u)))

# only an identity that is its own mapping is mapped
func IsMapped(identity) (err)
  prop V01 Q01
  ensures err == nil ==> mappedid(identity)

package mute/msgdb

def quN(i) = evarg("sqlquery", i, "s")
def quNA(i, j) = unbox(evarg("sqlquery", i, "args")[j])
def scN(i) = evarg("sqlscan", i, "err") == nil && evarg("sqlscan", i, "row") == evarg("sqlquery", i, "row")
def isNymQ(k, id) = quN(0) == k.getNymUIDQuery && len(evarg("sqlquery", 0, "args")) == 1 && quNA(0, 0) == id && mappedid(id)
# the row number of the nym
def nymUID(k, id) = count("sqlscan") >= 1 && isNymQ(k, id) && scN(0)
def nUID() = evarg("sqlscan", 0, "dest0")
def isConQ(k, id) = quN(1) == k.getContactUIDQuery && len(evarg("sqlquery", 1, "args")) == 2 && quNA(1, 0) == nUID() && quNA(1, 1) == id && mappedid(id)
# the row number of the nym's contact
def conUID(k, id) = count("sqlscan") >= 2 && isConQ(k, id) && scN(1)
def cUID() = evarg("sqlscan", 1, "dest0")
def exN() = len(evlast("sqlexec", 0, "args"))
def ran() = count("sqlexec") == 1 && evlast("sqlexec", 0, "err") == nil
def exTxN(n, q) = stmtof(ptrof(exS(n))) == ptrof(q) && txof(ptrof(exS(n))) == ptrof(evlast("sqlbegin", 0, "tx"))
def quTx(q) = stmtof(ptrof(quS(0))) == ptrof(q) && txof(ptrof(quS(0))) == ptrof(evlast("sqlbegin", 0, "tx"))
def committed() = count("sqlcommit") == 1 && evlast("sqlcommit", 0, "err") == nil
def scan1() = count("sqlquery") == 1 && count("sqlscan") == 1 && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
def firstline(s) = splitat(s, "\n", 0)
def nymtext(rows, mapped, t) = nymrow(ptrof(rows), mapped, t)
def contacttext(rows, t) = contactrow(ptrof(rows), t)
def msgtext(rows, m) = msgrow(ptrof(rows), m.MsgID, m.From, m.To, m.Incoming, m.Sent, m.Date, m.Subject, m.Read)
def cacherow(rows, t) = rowval(ptrof(rows), t)
def shown(full, un) = ite(full == "", un, cat(full, " <", un, ">"))

func (*MsgDB).AddValue(k, key, value) (err)
  prop Q01
  event mdbaddvalue
  quiet
  at sqlexec: exN() == 2 && count("sqlexec") <= 2
  at sqlexec: count("sqlexec") == 1 ==> exS(0) == k.updateValueQuery
  at sqlexec: count("sqlexec") == 2 ==> exS(0) == k.insertValueQuery && exS(1) == k.updateValueQuery && evlast("sqlexec", 1, "err") == nil && evlast("sqlrows", 0, "err") == nil && evlast("sqlrows", 0, "n") == 0
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "err") == nil && (count("sqlexec") == 2) == (evlast("sqlrows", 0, "n") == 0)
  at sqlexec: count("sqlexec") == 1 ==> exA(0) == value && exA(1) == key && key != "" && value != ""
  at sqlexec: count("sqlexec") == 2 ==> exA(0) == key && exA(1) == value

func (*MsgDB).GetValue(k, key) (r, err)
  prop Q01
  event mdbvalue
  quiet
  at sqlquery: count("sqlquery") == 1 && quS(0) == k.getValueQuery && quA(0) == key
  ensures err == nil && evlast("sqlscan", 0, "err") == nil ==> r == evlast("sqlscan", 0, "dest0")
  ensures err == nil && evlast("sqlscan", 0, "err") != nil ==> r == "" && evlast("sqlscan", 0, "err") == sql.ErrNoRows
  ensures err == nil ==> scan1()

func (*MsgDB).AddNym(k, mappedID, unmappedID, fullName) (err)
  prop Q01
  event addnym
  quiet
  at sqlexec: exN() == 3 && count("sqlexec") <= 2
  at sqlexec: count("sqlexec") == 1 ==> exS(0) == k.updateNymQuery
  at sqlexec: count("sqlexec") == 2 ==> exS(0) == k.insertNymQuery && exS(1) == k.updateNymQuery && evlast("sqlexec", 1, "err") == nil && evlast("sqlrows", 0, "err") == nil && evlast("sqlrows", 0, "n") == 0
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "err") == nil && (count("sqlexec") == 2) == (evlast("sqlrows", 0, "n") == 0)
  at sqlexec: mappedid(mappedID) && mapsto(unmappedID, mappedID)
  at sqlexec: count("sqlexec") == 1 ==> exA(0) == unmappedID && exA(1) == fullName && exA(2) == mappedID
  at sqlexec: count("sqlexec") == 2 ==> exA(0) == mappedID && exA(1) == unmappedID && exA(2) == fullName

func (*MsgDB).GetNym(k, mappedID) (unmappedID, fullName, err)
  prop Q01
  event getnym
  quiet
  at sqlquery: count("sqlquery") == 1 && quS(0) == k.getNymQuery && quA(0) == mappedID && mappedid(mappedID)
  ensures err == nil ==> scan1()
  ensures err == nil && evlast("sqlscan", 0, "err") == nil ==> unmappedID == evlast("sqlscan", 0, "dest0") && fullName == evlast("sqlscan", 0, "dest1")
  ensures err == nil && evlast("sqlscan", 0, "err") != nil ==> evlast("sqlscan", 0, "err") == sql.ErrNoRows && unmappedID == "" && fullName == ""
  ensures err != nil ==> unmappedID == "" && fullName == ""

func (*MsgDB).GetNyms(k, mapped) (r, err)
  prop Q01
  event getnyms
  quiet
  loop 0: forall(j, 0, len(nyms), nymtext(rows, mapped, nyms[j]))
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getNymsQuery && len(evlast("sqlrowsquery", 0, "args")) == 0
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> forall(j, 0, len(r), nymtext(evlast("sqlrowsquery", 0, "rows"), mapped, r[j]))

func (*MsgDB).DelNym(k, mappedID) (err)
  prop Q01
  event delnym
  quiet
  at sqlexec: count("sqlexec") == 1 && exS(0) == k.delNymQuery && exN() == 1 && exA(0) == mappedID && mappedid(mappedID)
  at sqlexec: count("getnym") == 1 && evlast("getnym", 0, "mappedID") == mappedID && evlast("getnym", 0, "err") == nil && evlast("getnym", 0, "unmappedID") != ""
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetUpkeepAll(k, myID) (t, err)
  prop Q01
  event getupkall
  quiet
  at sqlquery: count("sqlquery") == 1 && quS(0) == k.getUpkeepAllQuery && quA(0) == myID && mappedid(myID)
  ensures err == nil ==> scanned() && t == evlast("sqlscan", 0, "dest0")
  ensures scanned() ==> err == nil

func (*MsgDB).SetUpkeepAll(k, myID, t) (err)
  prop Q01
  event setupkall
  quiet
  at sqlexec: mappedid(myID) && exS(0) == k.setUpkeepAllQuery && exN() == 2
  at sqlexec: exA(0) == t && exA(1) == myID
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetUpkeepAccounts(k, myID) (t, err)
  prop Q01
  event getupkaccounts
  quiet
  at sqlquery: count("sqlquery") == 1 && quS(0) == k.getUpkeepAccountsQuery && quA(0) == myID && mappedid(myID)
  ensures err == nil ==> scanned() && t == evlast("sqlscan", 0, "dest0")
  ensures scanned() ==> err == nil

func (*MsgDB).SetUpkeepAccounts(k, myID, t) (err)
  prop Q01
  event setupkaccounts
  quiet
  at sqlexec: mappedid(myID) && exS(0) == k.setUpkeepAccountsQuery && exN() == 2
  at sqlexec: exA(0) == t && exA(1) == myID
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).AddContact(k, myID, mappedID, unmappedID, fullName, contactType) (err)
  prop Q01
  event addcontact
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  at sqlexec: exN() == 5 && count("sqlexec") <= 2
  at sqlexec: count("sqlexec") == 1 ==> exS(0) == k.updateContactQuery
  at sqlexec: count("sqlexec") == 2 ==> exS(0) == k.insertContactQuery && exS(1) == k.updateContactQuery && evlast("sqlexec", 1, "err") == nil && evlast("sqlrows", 0, "err") == nil && evlast("sqlrows", 0, "n") == 0
  ensures err == nil ==> evlast("sqlexec", 0, "err") == nil && evlast("sqlrows", 0, "err") == nil && (count("sqlexec") == 2) == (evlast("sqlrows", 0, "n") == 0)
  at sqlexec: nymUID(k, myID) && mappedid(mappedID) && mapsto(unmappedID, mappedID)
  at sqlexec: count("sqlexec") == 1 ==> exA(0) == unmappedID && exA(1) == fullName && exA(2) == contactType && exA(3) == nUID() && exA(4) == mappedID
  at sqlexec: count("sqlexec") == 2 ==> exA(0) == nUID() && exA(1) == mappedID && exA(2) == unmappedID && exA(3) == fullName && exA(4) == contactType

func (*MsgDB).GetContact(k, myID, contactID) (unmappedID, fullName, contactType, err)
  prop Q01
  event getcontact
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getContactQuery && quA(0) == nUID() && quA(1) == contactID && mappedid(contactID)
  at sqlquery: count("sqlquery") <= 2
  ensures err == nil ==> count("sqlscan") == 2 && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
  ensures err == nil && evlast("sqlscan", 0, "err") == nil ==> unmappedID == evlast("sqlscan", 0, "dest0") && fullName == evlast("sqlscan", 0, "dest1") && contactType == evlast("sqlscan", 0, "dest2") && 0 <= contactType && contactType <= 2
  ensures err == nil && evlast("sqlscan", 0, "err") != nil ==> evlast("sqlscan", 0, "err") == sql.ErrNoRows && unmappedID == "" && fullName == "" && contactType == 0
  ensures err != nil ==> unmappedID == "" && fullName == ""

func (*MsgDB).GetContacts(k, myID, blocked) (r, err)
  prop Q01
  event getcontacts
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  loop 0: forall(j, 0, len(contacts), contacttext(rows, contacts[j]))
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getContactsQuery && len(evlast("sqlrowsquery", 0, "args")) == 2 && nymUID(k, myID) && unbox(evlast("sqlrowsquery", 0, "args")[0]) == nUID() && unbox(evlast("sqlrowsquery", 0, "args")[1]) == ite(blocked, 2, 0)
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> forall(j, 0, len(r), contacttext(evlast("sqlrowsquery", 0, "rows"), r[j]))

func (*MsgDB).RemoveContact(k, myID, contactID) (err)
  prop Q01
  event rmcontact
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  at sqlexec: nymUID(k, myID) && mappedid(contactID) && exS(0) == k.delContactQuery && exN() == 2
  at sqlexec: exA(0) == nUID() && exA(1) == contactID
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).AddAccount(k, myID, contactID, privkey, server, secret, minDelay, maxDelay) (err)
  prop Q01
  event addaccount
  quiet
  requires privkey != nil && secret != nil
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, myID) && exS(0) == k.addAccountQuery && exN() == 9
  at sqlexec: exA(0) == nUID() && exA(2) == b64enc(bytes(privkey)) && exA(3) == server && exA(4) == b64enc(bytes(secret)) && exA(5) == minDelay && exA(6) == maxDelay && exA(7) == 0 && exA(8) == 0
  at sqlexec: contactID == "" ==> exA(1) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(1) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).SetAccountTime(k, myID, contactID, loadTime) (err)
  prop Q01
  event setacctime
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, myID) && exS(0) == k.setAccountTimeQuery && exN() == 3
  at sqlexec: exA(0) == loadTime && exA(1) == nUID()
  at sqlexec: contactID == "" ==> exA(2) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(2) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).SetAccountLastMsg(k, myID, contactID, lastMessageTime) (err)
  prop Q01
  event setacclast
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, myID) && exS(0) == k.setAccountLastTimeQuery && exN() == 3
  at sqlexec: exA(0) == lastMessageTime && exA(1) == nUID()
  at sqlexec: contactID == "" ==> exA(2) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(2) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetAccount(k, myID, contactID) (privkey, server, secret, minDelay, maxDelay, lastMessageTime, err)
  prop Q01
  event getaccount
  quiet
  fresh privkey, secret
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: contactID != "" && count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID)
  at sqlquery: contactID == "" && count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getAccountQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == nUID() && quA(1) == 0
  at sqlquery: count("sqlquery") == 3 ==> contactID != "" && nymUID(k, myID) && conUID(k, contactID) && quS(0) == k.getAccountQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == nUID() && quA(1) == cUID()
  at sqlquery: count("sqlquery") <= 3
  ensures err == nil ==> count("sqlscan") == ite(contactID == "", 2, 3) && evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
  ensures err == nil ==> privkey != nil && secret != nil
  ensures err == nil ==> server == evlast("sqlscan", 0, "dest1") && minDelay == evlast("sqlscan", 0, "dest3") && maxDelay == evlast("sqlscan", 0, "dest4") && lastMessageTime == evlast("sqlscan", 0, "dest5")
  ensures err == nil ==> b64ok(evlast("sqlscan", 0, "dest0")) && b64ok(evlast("sqlscan", 0, "dest2"))
  ensures err == nil && len(b64dec(evlast("sqlscan", 0, "dest0"))) == 64 ==> bytes(privkey) == b64dec(evlast("sqlscan", 0, "dest0"))
  ensures err == nil && len(b64dec(evlast("sqlscan", 0, "dest2"))) == 64 ==> bytes(secret) == b64dec(evlast("sqlscan", 0, "dest2"))

func (*MsgDB).GetAccountTime(k, myID, contactID) (t, err)
  prop Q01
  event getacctime
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: contactID != "" && count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID)
  at sqlquery: contactID == "" && count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getAccountTimeQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == nUID() && quA(1) == 0
  at sqlquery: count("sqlquery") == 3 ==> contactID != "" && nymUID(k, myID) && conUID(k, contactID) && quS(0) == k.getAccountTimeQuery && len(evlast("sqlquery", 0, "args")) == 2 && quA(0) == nUID() && quA(1) == cUID()
  at sqlquery: count("sqlquery") <= 3
  ensures err == nil ==> count("sqlscan") == ite(contactID == "", 2, 3) && evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
  ensures err == nil ==> t == evlast("sqlscan", 0, "dest0")

func (*MsgDB).GetAccounts(k, myID) (r, err)
  prop Q01
  event getaccounts
  quiet
  loop 0: forall(j, 0, len(contacts), contacts[j] == "") && forall(j, 0, len(cIDs), rownum(ptrof(rows), cIDs[j]) && cIDs[j] != 0)
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getAccountsQuery && len(evlast("sqlrowsquery", 0, "args")) == 1 && nymUID(k, myID) && unbox(evlast("sqlrowsquery", 0, "args")[0]) == nUID()
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err != nil ==> len(r) == 0
  at sqlquery: count("sqlrowsquery") == 0 ==> isNymQ(k, myID)
  at sqlquery: count("sqlrowsquery") == 1 ==> quS(0) == k.getContactMappedQuery && quA(0) == nUID() && rownum(ptrof(evlast("sqlrowsquery", 0, "rows")), quA(1))

func (*MsgDB).AddMessage(k, selfID, peerID, date, sent, message, sign, minDelay, maxDelay) (err)
  prop Q01
  event addmsg
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, selfID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, peerID) && nymUID(k, selfID)
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, selfID) && conUID(k, peerID) && exS(0) == k.addMsgQuery && exN() == 13
  at sqlexec: exA(0) == nUID() && exA(1) == cUID() && exA(2) == ite(sent, 1, 0) && exA(3) == ite(sent, 1, 0) && exA(4) == 0
  at sqlexec: exA(5) == ite(sent, selfID, peerID) && exA(6) == ite(sent, peerID, selfID) && exA(7) == date && exA(8) == firstline(message) && exA(9) == message && exA(10) == ite(sign, 1, 0) && exA(11) == minDelay && exA(12) == maxDelay
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetMessage(k, myID, msgNum) (from, to, msg, date, err)
  prop Q01
  event getmsg
  quiet
  at sqlquery: count("sqlquery") == 1 ==> quS(0) == k.getMsgQuery && quA(0) == msgNum && mappedid(myID)
  at sqlquery: count("sqlquery") == 2 ==> quS(0) == k.getNymMappedQuery && quA(0) == evarg("sqlscan", 0, "dest0")
  at sqlquery: count("sqlquery") == 3 ==> quS(0) == k.getContactMappedQuery && quA(0) == evarg("sqlscan", 0, "dest0") && quA(1) == evarg("sqlscan", 0, "dest1")
  ensures err == nil ==> count("sqlscan") == 3 && scN(0) && scN(1) && scN(2)
  # only the owner gets the message
  ensures err == nil ==> evarg("sqlscan", 1, "dest0") == myID && msg == evarg("sqlscan", 0, "dest4") && date == evarg("sqlscan", 0, "dest3")
  ensures err != nil ==> msg == "" && from == "" && to == ""
  ensures err == nil ==> count("getnym") == 1 && evlast("getnym", 0, "mappedID") == myID && evlast("getnym", 0, "err") == nil
  ensures err == nil ==> count("getcontact") == 1 && evlast("getcontact", 0, "myID") == myID && evlast("getcontact", 0, "contactID") == evarg("sqlscan", 2, "dest0") && evlast("getcontact", 0, "err") == nil
  ensures err == nil ==> from == ite(evarg("sqlscan", 0, "dest2") == 1, shown(evlast("getnym", 0, "fullName"), evlast("getnym", 0, "unmappedID")), shown(evlast("getcontact", 0, "fullName"), evlast("getcontact", 0, "unmappedID")))
  ensures err == nil ==> to == ite(evarg("sqlscan", 0, "dest2") == 1, shown(evlast("getcontact", 0, "fullName"), evlast("getcontact", 0, "unmappedID")), shown(evlast("getnym", 0, "fullName"), evlast("getnym", 0, "unmappedID")))

func (*MsgDB).ReadMessage(k, msgNum) (err)
  prop Q01
  event readmsg
  quiet
  at sqlexec: exS(0) == k.readMsgQuery && exN() == 1
  at sqlexec: exA(0) == msgNum
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).DelMessage(k, myID, msgNum) (err)
  prop Q01
  event delmsg
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  at sqlexec: nymUID(k, myID) && exS(0) == k.delMsgQuery && exN() == 2
  at sqlexec: exA(0) == msgNum && exA(1) == nUID()
  ensures err == nil ==> ran() && evlast("sqlrows", 0, "err") == nil && evlast("sqlrows", 0, "n") >= 1
  ensures ran() && evlast("sqlrows", 0, "err") == nil && evlast("sqlrows", 0, "n") >= 1 ==> err == nil

func (*MsgDB).GetMsgIDs(k, myID) (r, err)
  prop Q01
  event getmsgids
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  loop 0: forall(j, 0, len(msgIDs), msgIDs[j] != nil && msgtext(rows, msgIDs[j]))
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getMsgsQuery && len(evlast("sqlrowsquery", 0, "args")) == 1 && nymUID(k, myID) && unbox(evlast("sqlrowsquery", 0, "args")[0]) == nUID()
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err != nil ==> len(r) == 0
  ensures err == nil ==> forall(j, 0, len(r), r[j] != nil && msgtext(evlast("sqlrowsquery", 0, "rows"), r[j]))

func (*MsgDB).GetUndeliveredMessage(k, myID) (msgNum, contactID, msg, sign, minDelay, maxDelay, err)
  prop Q01
  event getundel
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getUndeliveredMsgQuery && quA(0) == nUID()
  at sqlquery: count("sqlquery") == 3 ==> nymUID(k, myID) && evarg("sqlscan", 1, "err") == nil && quS(0) == k.getContactMappedQuery && quA(0) == nUID() && quA(1) == evarg("sqlscan", 1, "dest1")
  ensures err == nil ==> count("sqlscan") >= 2 && evarg("sqlscan", 1, "row") == evarg("sqlquery", 1, "row")
  ensures err == nil && count("sqlscan") == 2 ==> evarg("sqlscan", 1, "err") == sql.ErrNoRows && msgNum == 0 && contactID == "" && len(msg) == 0
  ensures err == nil && count("sqlscan") != 2 ==> count("sqlscan") == 3 && scN(2) && contactID == evarg("sqlscan", 2, "dest0") && msgNum == evarg("sqlscan", 1, "dest0") && bytes(msg) == bytes(evarg("sqlscan", 1, "dest2")) && sign == (evarg("sqlscan", 1, "dest3") > 0) && minDelay == evarg("sqlscan", 1, "dest4") && maxDelay == evarg("sqlscan", 1, "dest5")
  ensures err != nil ==> msgNum == 0

func (*MsgDB).AddOutQueue(k, myID, msgID, encMsg, nymaddress, minDelay, maxDelay) (err)
  prop Q01
  event addoq
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  at sqlexec: nymUID(k, myID)
  at sqlexec: exTxN(0, k.updateDeliveryMsgQuery) && exN() == 2 && exA(0) == 0 && exA(1) == msgID || exTxN(0, k.addOutQueueQuery) && exN() == 6 && exA(0) == nUID() && exA(1) == msgID && exA(2) == encMsg && exA(3) == nymaddress && exA(4) == minDelay && exA(5) == maxDelay
  at sqlcommit: count("sqlcommit") == 1 && count("sqlrollback") == 0 && evlast("sqlcommit", 0, "tx") == evlast("sqlbegin", 0, "tx")
  at sqlcommit: count("sqlexec") == 2 && evlast("sqlexec", 0, "err") == nil && evlast("sqlexec", 1, "err") == nil && (exTxN(1, k.updateDeliveryMsgQuery) && exTxN(0, k.addOutQueueQuery) || exTxN(1, k.addOutQueueQuery) && exTxN(0, k.updateDeliveryMsgQuery))
  ensures err == nil ==> committed()
  ensures committed() ==> err == nil
  ensures err != nil && count("sqlbegin") == 1 && evlast("sqlbegin", 0, "err") == nil ==> count("sqlrollback") >= 1 && evlast("sqlrollback", 0, "tx") == evlast("sqlbegin", 0, "tx")

func (*MsgDB).GetOutQueue(k, myID) (oqIdx, msg, nymaddress, minDelay, maxDelay, envelope, err)
  prop Q01
  event getoq
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getOutQueueQuery && quA(0) == nUID()
  at sqlquery: count("sqlquery") <= 2
  ensures err == nil ==> count("sqlscan") == 2 && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row")
  ensures err == nil && evlast("sqlscan", 0, "err") == nil ==> oqIdx == evlast("sqlscan", 0, "dest0") && msg == evlast("sqlscan", 0, "dest1") && nymaddress == evlast("sqlscan", 0, "dest2") && minDelay == evlast("sqlscan", 0, "dest3") && maxDelay == evlast("sqlscan", 0, "dest4") && envelope == (evlast("sqlscan", 0, "dest5") > 0)
  ensures err == nil && evlast("sqlscan", 0, "err") != nil ==> evlast("sqlscan", 0, "err") == sql.ErrNoRows && oqIdx == 0 && msg == "" && nymaddress == "" && !envelope
  ensures err != nil ==> oqIdx == 0 && msg == ""

func (*MsgDB).SetOutQueue(k, oqIdx, envMsg) (err)
  prop Q01
  event setoq
  quiet
  at sqlexec: exS(0) == k.setOutQueueQuery && exN() == 2
  at sqlexec: exA(0) == envMsg && exA(1) == oqIdx
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).RemoveOutQueue(k, oqIdx, date) (err)
  prop Q01
  event rmoq
  quiet
  at sqlquery: count("sqlquery") == 1 && quTx(k.getOutQueueMsgIDQuery) && quA(0) == oqIdx
  at sqlexec: scanned()
  at sqlexec: exTxN(0, k.updateMsgDateQuery) && exN() == 2 && exA(0) == date && exA(1) == evlast("sqlscan", 0, "dest0") || exTxN(0, k.removeOutQueueQuery) && exN() == 1 && exA(0) == oqIdx
  at sqlcommit: count("sqlcommit") == 1 && count("sqlrollback") == 0 && evlast("sqlcommit", 0, "tx") == evlast("sqlbegin", 0, "tx")
  at sqlcommit: count("sqlexec") == 2 && evlast("sqlexec", 0, "err") == nil && evlast("sqlexec", 1, "err") == nil && (exTxN(1, k.updateMsgDateQuery) && exTxN(0, k.removeOutQueueQuery) || exTxN(1, k.removeOutQueueQuery) && exTxN(0, k.updateMsgDateQuery))
  ensures err == nil ==> committed()
  ensures committed() ==> err == nil
  ensures err != nil && count("sqlbegin") == 1 && evlast("sqlbegin", 0, "err") == nil ==> count("sqlrollback") >= 1 && evlast("sqlrollback", 0, "tx") == evlast("sqlbegin", 0, "tx")

func (*MsgDB).RetractOutQueue(k, oqIdx) (err)
  prop Q01
  event retoq
  quiet
  at sqlquery: count("sqlquery") == 1 && quTx(k.getOutQueueMsgIDQuery) && quA(0) == oqIdx
  at sqlexec: scanned()
  at sqlexec: exTxN(0, k.updateDeliveryMsgQuery) && exN() == 2 && exA(0) == 1 && exA(1) == evlast("sqlscan", 0, "dest0") || exTxN(0, k.removeOutQueueQuery) && exN() == 1 && exA(0) == oqIdx
  at sqlcommit: count("sqlcommit") == 1 && count("sqlrollback") == 0 && evlast("sqlcommit", 0, "tx") == evlast("sqlbegin", 0, "tx")
  at sqlcommit: count("sqlexec") == 2 && evlast("sqlexec", 0, "err") == nil && evlast("sqlexec", 1, "err") == nil && (exTxN(1, k.updateDeliveryMsgQuery) && exTxN(0, k.removeOutQueueQuery) || exTxN(1, k.removeOutQueueQuery) && exTxN(0, k.updateDeliveryMsgQuery))
  ensures err == nil ==> committed()
  ensures committed() ==> err == nil
  ensures err != nil && count("sqlbegin") == 1 && evlast("sqlbegin", 0, "err") == nil ==> count("sqlrollback") >= 1 && evlast("sqlrollback", 0, "tx") == evlast("sqlbegin", 0, "tx")

func (*MsgDB).SetResendOutQueue(k, oqIdx) (err)
  prop Q01
  event resendoq
  quiet
  at sqlexec: exS(0) == k.setResendOutQueueQuery && exN() == 1
  at sqlexec: exA(0) == oqIdx
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).ClearResendOutQueue(k, myID) (err)
  prop Q01
  event clearoq
  quiet
  at sqlquery: count("sqlquery") <= 1 && isNymQ(k, myID)
  at sqlexec: nymUID(k, myID) && exS(0) == k.clearResendOutQueueQuery && exN() == 1
  at sqlexec: exA(0) == nUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).AddInQueue(k, myID, contactID, date, msg) (err)
  prop Q01
  event addiq
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, myID) && exS(0) == k.addInQueueQuery && exN() == 4
  at sqlexec: exA(0) == nUID() && exA(2) == date && exA(3) == msg
  at sqlexec: contactID == "" ==> exA(1) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(1) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetInQueue(k) (iqIdx, myID, contactID, msg, envelope, err)
  prop Q01
  event getiq
  quiet
  at sqlquery: count("sqlquery") == 1 ==> quS(0) == k.getInQueueQuery && len(evlast("sqlquery", 0, "args")) == 0
  at sqlquery: count("sqlquery") == 2 ==> quS(0) == k.getNymMappedQuery && quA(0) == evarg("sqlscan", 0, "dest1")
  at sqlquery: count("sqlquery") == 3 ==> quS(0) == k.getContactMappedQuery && quA(0) == evarg("sqlscan", 0, "dest1") && quA(1) == evarg("sqlscan", 0, "dest2")
  ensures err == nil && count("sqlscan") == 1 ==> evarg("sqlscan", 0, "err") == sql.ErrNoRows && iqIdx == 0 && msg == "" && myID == ""
  ensures err == nil && count("sqlscan") != 1 ==> count("sqlscan") >= 2 && scN(0) && scN(1) && iqIdx == evarg("sqlscan", 0, "dest0") && msg == evarg("sqlscan", 0, "dest3") && envelope == (evarg("sqlscan", 0, "dest4") > 0) && myID == evarg("sqlscan", 1, "dest0")
  ensures err == nil && count("sqlscan") == 2 ==> evarg("sqlscan", 0, "dest2") <= 0 && contactID == ""
  ensures err == nil && count("sqlscan") == 3 ==> evarg("sqlscan", 0, "dest2") > 0 && scN(2) && contactID == evarg("sqlscan", 2, "dest0")
  ensures err != nil ==> iqIdx == 0

func (*MsgDB).SetInQueue(k, iqIdx, msg) (err)
  prop Q01
  event setiq
  quiet
  at sqlexec: exS(0) == k.setInQueueQuery && exN() == 2
  at sqlexec: exA(0) == msg && exA(1) == iqIdx
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).RemoveInQueue(k, iqIdx, plainMsg, fromID, drop) (err)
  prop Q01
  event rmiq
  quiet
  at sqlquery: count("sqlquery") == 1 ==> quS(0) == k.getInQueueIDsQuery && quA(0) == iqIdx && mappedid(fromID)
  at sqlquery: count("sqlquery") == 2 ==> scN(0) && quS(0) == k.getContactUIDQuery && quA(0) == nUID() && quA(1) == fromID
  at sqlquery: count("sqlquery") == 3 ==> scN(1) && quTx(k.getNymMappedQuery) && quA(0) == nUID()
  at sqlexec: scN(0) && scN(1)
  at sqlexec: exTxN(0, k.removeInQueueQuery) && exN() == 1 || !drop && exTxN(0, k.addMsgQuery) && exN() == 13
  at sqlexec: exN() == 1 ==> exA(0) == iqIdx
  at sqlexec: exN() == 13 ==> scN(2) && count("sqlscan") == 3
  at sqlexec: exN() == 13 ==> exA(0) == nUID() && exA(1) == evarg("sqlscan", 1, "dest0") && exA(2) == 0 && exA(3) == 0 && exA(4) == 0 && exA(5) == fromID && exA(6) == evarg("sqlscan", 2, "dest0") && exA(7) == evarg("sqlscan", 0, "dest2") && exA(8) == firstline(plainMsg) && exA(9) == plainMsg && exA(10) == 0 && exA(11) == 0 && exA(12) == 0
  at sqlcommit: count("sqlcommit") == 1 && count("sqlrollback") == 0 && evlast("sqlcommit", 0, "tx") == evlast("sqlbegin", 0, "tx")
  at sqlcommit: drop ==> count("sqlexec") == 1 && evlast("sqlexec", 0, "err") == nil && exTxN(0, k.removeInQueueQuery)
  at sqlcommit: !drop ==> count("sqlexec") == 2 && evlast("sqlexec", 0, "err") == nil && evlast("sqlexec", 1, "err") == nil && (exTxN(1, k.addMsgQuery) && exTxN(0, k.removeInQueueQuery) || exTxN(0, k.addMsgQuery) && exTxN(1, k.removeInQueueQuery))
  ensures err == nil ==> committed()
  ensures committed() ==> err == nil
  ensures err != nil && count("sqlbegin") == 1 && evlast("sqlbegin", 0, "err") == nil ==> count("sqlrollback") >= 1 && evlast("sqlrollback", 0, "tx") == evlast("sqlbegin", 0, "tx")

func (*MsgDB).DelInQueue(k, iqIdx) (err)
  prop Q01
  event deliq
  quiet
  at sqlexec: exS(0) == k.removeInQueueQuery && exN() == 1
  at sqlexec: exA(0) == iqIdx
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).AddMessageIDCache(k, myID, contactID, messageID) (err)
  prop Q01
  event addcache
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  at sqlexec: nymUID(k, myID) && messageID != "" && exS(0) == k.addMessageIDCacheQuery && exN() == 3
  at sqlexec: exA(0) == nUID() && exA(2) == messageID
  at sqlexec: contactID == "" ==> exA(1) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(1) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

func (*MsgDB).GetMessageIDCache(k, myID, contactID) (r, err)
  prop Q01
  event getcache
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID) && contactID != ""
  at sqlquery: count("sqlquery") <= 2
  loop 0: forallkey(key, cache, cacherow(rows, key) && cache[key])
  at sqlrowsquery: count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "s") == k.getMessageIDCacheQuery && len(evlast("sqlrowsquery", 0, "args")) == 2
  at sqlrowsquery: nymUID(k, myID) && unbox(evlast("sqlrowsquery", 0, "args")[0]) == nUID()
  at sqlrowsquery: contactID == "" ==> unbox(evlast("sqlrowsquery", 0, "args")[1]) == 0
  at sqlrowsquery: contactID != "" ==> conUID(k, contactID) && unbox(evlast("sqlrowsquery", 0, "args")[1]) == cUID()
  ensures err == nil ==> count("sqlrowsquery") == 1 && evlast("sqlrowsquery", 0, "err") == nil && evlast("sqlrowserr", 0, "err") == nil && evlast("sqlrowserr", 0, "rows") == evlast("sqlrowsquery", 0, "rows")
  ensures err == nil ==> r != nil
  ensures err == nil ==> forallkey(key, r, cacherow(evlast("sqlrowsquery", 0, "rows"), key) && r[key])
  ensures err != nil ==> r == nil

func (*MsgDB).RemoveMessageIDCache(k, myID, contactID, messageID) (err)
  prop Q01
  event rmcache
  quiet
  at sqlquery: count("sqlquery") == 1 ==> isNymQ(k, myID)
  at sqlquery: contactID != "" && count("sqlquery") == 2 ==> isConQ(k, contactID) && nymUID(k, myID)
  at sqlquery: contactID == "" && count("sqlquery") == 2 ==> nymUID(k, myID) && quS(0) == k.getMessageIDCacheEntryQuery && len(evlast("sqlquery", 0, "args")) == 3 && quA(0) == nUID() && quA(1) == 0 && quA(2) == messageID
  at sqlquery: count("sqlquery") == 3 ==> contactID != "" && nymUID(k, myID) && conUID(k, contactID) && quS(0) == k.getMessageIDCacheEntryQuery && len(evlast("sqlquery", 0, "args")) == 3 && quA(0) == nUID() && quA(1) == cUID() && quA(2) == messageID
  at sqlquery: count("sqlquery") <= 3
  at sqlexec: nymUID(k, myID) && messageID != "" && evlast("sqlscan", 0, "err") == nil && evlast("sqlscan", 0, "row") == evlast("sqlquery", 0, "row") && quS(0) == k.getMessageIDCacheEntryQuery && count("sqlscan") == ite(contactID == "", 2, 3)
  at sqlexec: exS(0) == k.removeMessageIDCacheQuery && exN() == 3
  at sqlexec: exA(0) == nUID() && exA(2) == evlast("sqlscan", 0, "dest0")
  at sqlexec: contactID == "" ==> exA(1) == 0
  at sqlexec: contactID != "" ==> conUID(k, contactID) && exA(1) == cUID()
  ensures err == nil ==> ran()
  ensures ran() ==> err == nil

# every statement is the one its name says
func Open(dbname, passphrase) (k, err)
  prop Q01
  noinline
  ensures (err == nil) == (k != nil)
  ensures err == nil ==> k.encDB != nil
  ensures err == nil ==> sqltext(ptrof(k.updateValueQuery)) == "UPDATE KeyValueStore SET ValueEntry=? WHERE KeyEntry=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertValueQuery)) == "INSERT INTO KeyValueStore (KeyEntry, ValueEntry) VALUES (?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getValueQuery)) == "SELECT ValueEntry FROM KeyValueStore WHERE KeyEntry=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateNymQuery)) == "UPDATE Nyms SET UnmappedID=?, FullName=? WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertNymQuery)) == "INSERT INTO Nyms (MappedID, UnmappedID, FullName) VALUES (?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getNymQuery)) == "SELECT UnmappedID, FullName from Nyms WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getNymMappedQuery)) == "SELECT MappedID FROM Nyms WHERE UID=?"
  ensures err == nil ==> sqltext(ptrof(k.getNymUIDQuery)) == "SELECT UID from Nyms WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getNymsQuery)) == "SELECT MappedID, UnmappedID, FullName from Nyms;"
  ensures err == nil ==> sqltext(ptrof(k.delNymQuery)) == "DELETE FROM Nyms WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getContactQuery)) == "SELECT UnmappedID, FullName, Blocked FROM Contacts WHERE MyID=? AND MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getContactMappedQuery)) == "SELECT MappedID FROM Contacts WHERE MyID=? AND UID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getContactUIDQuery)) == "SELECT UID FROM Contacts WHERE MyID=? AND MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getContactsQuery)) == "SELECT UnmappedID, FullName FROM Contacts WHERE MyID=? AND Blocked=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateContactQuery)) == "UPDATE Contacts SET UnmappedID=?, FullName=?, Blocked=? WHERE MyID=? AND MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.insertContactQuery)) == "INSERT INTO Contacts (MyID, MappedID, UnmappedID, FullName, Blocked) VALUES (?, ?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.delContactQuery)) == "UPDATE Contacts SET Blocked=1 WHERE MyID=? AND MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.addAccountQuery)) == "INSERT INTO Accounts (MyID, ContactID, PrivKey, Server, Secret, MinDelay, MaxDelay, LoadTime, LastMsgTime) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.setAccountTimeQuery)) == "UPDATE Accounts SET LoadTime=? WHERE MyID=? AND ContactID=?;"
  ensures err == nil ==> sqltext(ptrof(k.setAccountLastTimeQuery)) == "UPDATE Accounts SET LastMsgTime=? WHERE MyID=? AND ContactID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getAccountQuery)) == "SELECT PrivKey, Server, Secret, MinDelay, MaxDelay, LastMsgTime FROM Accounts WHERE MyID=? AND ContactID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getAccountsQuery)) == "SELECT ContactID FROM Accounts WHERE MyID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getAccountTimeQuery)) == "SELECT LoadTime FROM Accounts WHERE MyID=? AND ContactID=?;"
  ensures err == nil ==> sqltext(ptrof(k.addMsgQuery)) == "INSERT INTO Messages (Self, Peer, Direction, ToSend, Sent, \"From\", \"To\", Date, Subject, Message, Sign, MinDelay, MaxDelay, Read, Star) VALUES (?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, ?, 0, 0);"
  ensures err == nil ==> sqltext(ptrof(k.delMsgQuery)) == "DELETE FROM Messages WHERE MsgID=? AND Self=?;"
  ensures err == nil ==> sqltext(ptrof(k.getMsgQuery)) == "SELECT Self, Peer, Direction, Date, Message FROM Messages WHERE MsgID=?;"
  ensures err == nil ==> sqltext(ptrof(k.readMsgQuery)) == "UPDATE Messages SET Read=1 WHERE MsgID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getMsgsQuery)) == "SELECT MsgID, \"From\", \"To\", Direction, Sent, Date, Subject, Read FROM Messages WHERE Self=?;"
  ensures err == nil ==> sqltext(ptrof(k.getUndeliveredMsgQuery)) == "SELECT MsgID, Peer, Message, Sign, MinDelay, MaxDelay FROM Messages WHERE Self=? AND ToSend=1 ORDER BY MsgID ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(k.updateDeliveryMsgQuery)) == "UPDATE Messages SET ToSend=? WHERE MsgID=?;"
  ensures err == nil ==> sqltext(ptrof(k.updateMsgDateQuery)) == "UPDATE Messages SET Date=?, Sent=1 WHERE MsgID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getUpkeepAllQuery)) == "SELECT UpkeepAll FROM Nyms WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.setUpkeepAllQuery)) == "UPDATE Nyms SET UpkeepAll=? WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getUpkeepAccountsQuery)) == "SELECT UpkeepAccounts FROM Nyms WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.setUpkeepAccountsQuery)) == "UPDATE Nyms SET UpkeepAccounts=? WHERE MappedID=?;"
  ensures err == nil ==> sqltext(ptrof(k.addOutQueueQuery)) == "INSERT INTO OutQueue (Self, MsgID, Msg, NymAddress, MinDelay, MaxDelay, Envelope, Resend) VALUES (?, ?, ?, ?, ?, ?, 0, 0);"
  ensures err == nil ==> sqltext(ptrof(k.getOutQueueQuery)) == "SELECT OQIdx, Msg, NymAddress, MinDelay, MaxDelay, Envelope FROM OutQueue WHERE Self=? AND Resend=0 ORDER BY OQIdx ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(k.getOutQueueMsgIDQuery)) == "SELECT MsgID FROM OutQueue WHERE OQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.setOutQueueQuery)) == "UPDATE OutQueue SET Msg=?, Envelope=1 WHERE OQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.removeOutQueueQuery)) == "DELETE FROM OutQueue WHERE OQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.setResendOutQueueQuery)) == "UPDATE OutQueue SET Resend=1 WHERE OQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.clearResendOutQueueQuery)) == "UPDATE OutQueue SET Resend=0 WHERE Self=? AND Resend=1;"
  ensures err == nil ==> sqltext(ptrof(k.addInQueueQuery)) == "INSERT INTO InQueue (MyID, ContactID, Date, Msg, Envelope) VALUES (?, ?, ?, ?, 1);"
  ensures err == nil ==> sqltext(ptrof(k.getInQueueQuery)) == "SELECT IQIdx, MyID, ContactID, Msg, Envelope FROM InQueue ORDER BY IQIdx ASC LIMIT 1;"
  ensures err == nil ==> sqltext(ptrof(k.getInQueueIDsQuery)) == "SELECT MyID, ContactID, Date FROM InQueue WHERE IQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.setInQueueQuery)) == "UPDATE InQueue SET Msg=?, Envelope=0 WHERE IQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.removeInQueueQuery)) == "DELETE FROM InQueue WHERE IQIdx=?;"
  ensures err == nil ==> sqltext(ptrof(k.addMessageIDCacheQuery)) == "INSERT INTO MessageIDCache (MyID, ContactID, MessageID) VALUES (?, ?, ?);"
  ensures err == nil ==> sqltext(ptrof(k.getMessageIDCacheQuery)) == "SELECT MessageID FROM MessageIDCache WHERE MyID=? AND ContactID=?;"
  ensures err == nil ==> sqltext(ptrof(k.getMessageIDCacheEntryQuery)) == "SELECT Entry FROM MessageIDCache WHERE MyID=? AND ContactID=? AND MessageID=?;"
  ensures err == nil ==> sqltext(ptrof(k.removeMessageIDCacheQuery)) == "DELETE FROM MessageIDCache WHERE MyID=? AND ContactID=? AND Entry<?;"
