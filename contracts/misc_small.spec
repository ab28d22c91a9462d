package mute/util/digits
def ndig(u) = ite(u < 10, 1, ite(u < 100, 2, ite(u < 1000, 3, ite(u < 10000, 4, ite(u < 100000, 5, ite(u < 1000000, 6, ite(u < 10000000, 7, ite(u < 100000000, 8, ite(u < 1000000000, 9, ite(u < 10000000000, 10, ite(u < 100000000000, 11, ite(u < 1000000000000, 12, ite(u < 10000000000000, 13, ite(u < 100000000000000, 14, ite(u < 1000000000000000, 15, ite(u < 10000000000000000, 16, ite(u < 100000000000000000, 17, ite(u < 1000000000000000000, 18, ite(u < 10000000000000000000, 19, 20)))))))))))))))))))
func Count(u) (n)
  prop P01
  ensures 1 <= n && n <= 20
  ensures n == ndig(u)
  ensures (n <= 1) == (u < 10) && (n <= 2) == (u < 100) && (n <= 3) == (u < 1000) && (n <= 4) == (u < 10000)
  ensures (n <= 5) == (u < 100000) && (n <= 6) == (u < 1000000) && (n <= 7) == (u < 10000000) && (n <= 8) == (u < 100000000)
  ensures (n <= 9) == (u < 1000000000) && (n <= 10) == (u < 10000000000) && (n <= 11) == (u < 100000000000) && (n <= 12) == (u < 1000000000000)
  ensures (n <= 13) == (u < 10000000000000) && (n <= 14) == (u < 100000000000000) && (n <= 15) == (u < 1000000000000000)
  ensures (n <= 16) == (u < 10000000000000000) && (n <= 17) == (u < 100000000000000000) && (n <= 18) == (u < 1000000000000000000) && (n <= 19) == (u < 10000000000000000000)

package mute/msg/padding
func Generate(length, rand) (r, err)
  prop P01
  requires rand != nil && 0 <= length && length < 1099511627776
  ensures err == nil ==> len(r) == length
  ensures err == nil && length > 32 ==> count("read") == 1 && len(evarg("read", 0, "data")) == 32 && bytes(r) == sub(ctr(evarg("read", 0, "data"), zeros(16), zeros((1 + length / 16) * 16)), 0, length)
  ensures err == nil && length <= 32 && length > 0 ==> count("read") == 1 && evarg("read", 0, "data") == bytes(r)
  ensures err != nil ==> r == nil
