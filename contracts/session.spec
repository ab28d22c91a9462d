package mute/msg/session
package uid mute/uid
package memstore mute/msg/session/memstore

def keEq(a, b) = ite(a == nil || b == nil, a == nil && b == nil, a.CIPHERSUITE == b.CIPHERSUITE && a.FUNCTION == b.FUNCTION && a.HASH == b.HASH && a.PUBKEY == b.PUBKEY)
def keValEq(a, b) = a.CIPHERSUITE == b.CIPHERSUITE && a.FUNCTION == b.FUNCTION && a.HASH == b.HASH && a.PUBKEY == b.PUBKEY

func StateEqual(a, b) (r)
  prop M01
  ensures a == nil || b == nil ==> r == (a == nil && b == nil)
  ensures a != nil && b != nil ==> r == (a == b || a.SenderSessionCount == b.SenderSessionCount && a.SenderMessageCount == b.SenderMessageCount && a.MaxRecipientCount == b.MaxRecipientCount && keValEq(a.RecipientTemp, b.RecipientTemp) && keValEq(a.SenderSessionPub, b.SenderSessionPub) && keEq(a.NextSenderSessionPub, b.NextSenderSessionPub) && keEq(a.NextRecipientSessionPubSeen, b.NextRecipientSessionPubSeen) && a.NymAddress == b.NymAddress && a.KeyInitSession == b.KeyInitSession)

func CalcStateKey(senderIdentityPub, recipientIdentityPub) (r)
  prop M01 R02
  requires senderIdentityPub != nil && recipientIdentityPub != nil
  ensures r == b64enc(sha512(cat(bytes(senderIdentityPub), bytes(recipientIdentityPub))))

func CalcKey(a, b, c, d) (r)
  prop M01 R02
  ensures r == b64enc(sha512(cat(a, b, c, d)))
