package msg

import (
	"encoding/json"
	"strings"
	"testing"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
)

// The encoded header has one length whatever its fields are.
func TestVerifHeaderSize(t *testing.T) {
	v := vStart(t)
	b := newParty("bob@mute.berlin")
	ids := []string{"abc@d", "alice@mute.berlin", strings.Repeat("lp", 32) + "@" + strings.Repeat("x", 185) + ".one"}
	var parties []*party
	for _, id := range ids {
		parties = append(parties, newParty(id))
	}
	var sess, nextS, nextR uid.KeyEntry
	for _, k := range []*uid.KeyEntry{&sess, &nextS, &nextR} {
		if err := k.InitDHKey(cipher.RandReader); err != nil {
			t.Fatal(err)
		}
	}
	var nums []uint64
	p := uint64(1)
	for i := 0; i < 20; i++ {
		nums = append(nums, p-1, p, p+1)
		p *= 10
	}
	nums = append(nums, 1<<64-1, 1<<63, 1<<32)
	nyms := []int{0, 1, 2, 3, 100, 1567, 1568}
	want := 0
	for i := 0; i < v.n2(400, 5000); i++ {
		a := parties[i%len(parties)]
		c1, c2 := nums[i%len(nums)], nums[(i*7+3)%len(nums)]
		var ns, nr *uid.KeyEntry
		if i&1 != 0 {
			ns = &nextS
		}
		if i&2 != 0 {
			nr = &nextR
		}
		h, err := newHeader(a.uid, b.uid, b.kiPub.HASH, &sess, ns, nr, strings.Repeat("n", nyms[i%len(nyms)]),
			c1, c2, hashchain.TestEntry, cipher.RandReader, StatusCode(i%3))
		if !v.check(err == nil, "header", "%v", err) {
			continue
		}
		j, err := json.Marshal(h)
		if want == 0 {
			want = len(j)
		}
		v.check(err == nil && len(j) == want, "header-size", "header of %d instead of %d bytes (identity of %d bytes, counters %d %d, nym of %d, next keys %v %v, status %d)",
			len(j), want, len(a.uid.Identity()), c1, c2, nyms[i%len(nyms)], ns != nil, nr != nil, i%3)
		v.check(h.SenderSessionCount == c1 && h.SenderMessageCount == c2 && h.NextSenderSessionPub == ns && h.NextRecipientSessionPubSeen == nr &&
			h.SenderIdentity == a.uid.Identity() && h.SenderLastKeychainHash == hashchain.TestEntry && h.Status == StatusCode(i%3), "header-fields", "header field differs from the argument")
		_, err = newHeaderPacket(h, b.uid.PubKey().PublicKey32(), b.uid.PubKey().PrivateKey32(), cipher.RandReader)
		v.check(err == nil, "header-packet", "sealing: %v", err)
	}
	for _, n := range []int{1569, 1570, 5000} {
		_, err := newHeader(parties[0].uid, b.uid, b.kiPub.HASH, &sess, nil, nil, strings.Repeat("n", n), 0, 0, hashchain.TestEntry, cipher.RandReader, 0)
		v.check(err != nil, "nym-too-long", "nym address of %d bytes accepted", n)
	}
	v.done()
}
