package mute/keyserver/hashchain

func SplitEntry(entry) (hash, typ, nonce, hashID, crUID, uidIndex, err)
  prop H01
  inline
  let e = b64dec(entry)
  ensures (err == nil) == (b64ok(entry) && len(e) == 153 && e[32] == 1)
  ensures err == nil ==> bytes(hash) == sub(e, 0, 32) && bytes(typ) == sub(e, 32, 33) && bytes(nonce) == sub(e, 33, 41) && bytes(hashID) == sub(e, 41, 73) && bytes(crUID) == sub(e, 73, 121) && bytes(uidIndex) == sub(e, 121, 153)
  ensures err == nil ==> cat(bytes(hash), bytes(typ), bytes(nonce), bytes(hashID), bytes(crUID), bytes(uidIndex)) == e
