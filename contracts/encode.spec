package mute/encode

def byteN(u, k) = u / k % 256
# definition of the little-endian encodings
axiom le1def (u Int) imp(0 <= u && u < 256, le(1, u) == unit(u))
axiom le2def (u Int) imp(0 <= u && u < 65536, le(2, u) == cat(unit(byteN(u, 1)), unit(byteN(u, 256))))
axiom le8def (u Int) imp(0 <= u && u < 18446744073709551616, le(8, u) == cat(unit(byteN(u, 1)), unit(byteN(u, 256)), unit(byteN(u, 65536)), unit(byteN(u, 16777216)), unit(byteN(u, 4294967296)), unit(byteN(u, 1099511627776)), unit(byteN(u, 281474976710656)), unit(byteN(u, 72057594037927936))))

func ToByte1(u) (r)
  prop T01
  ensures len(r) == 1 && bytes(r) == unit(u)

func ToByte2(u) (r)
  prop T01
  ensures len(r) == 2 && r[0] == byteN(u, 1) && r[1] == byteN(u, 256)
  ensures bytes(r) == le(2, u)

func ToByte8(u) (r)
  prop T01
  ensures len(r) == 8
  ensures r[0] == byteN(u, 1) && r[1] == byteN(u, 256) && r[2] == byteN(u, 65536) && r[3] == byteN(u, 16777216)
  ensures r[4] == byteN(u, 4294967296) && r[5] == byteN(u, 1099511627776) && r[6] == byteN(u, 281474976710656) && r[7] == byteN(u, 72057594037927936)
  ensures bytes(r) == le(8, u)

func ToUint16(b) (u)
  prop T01
  maypanic len(b) != 2
  ensures len(b) == 2
  ensures u == b[0] + 256 * b[1]

func ToUint64(b) (u)
  prop T01
  maypanic len(b) != 8
  ensures len(b) == 8
  ensures u == b[0] + 256*b[1] + 65536*b[2] + 16777216*b[3] + 4294967296*b[4] + 1099511627776*b[5] + 281474976710656*b[6] + 72057594037927936*b[7]
