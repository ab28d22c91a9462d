# Logical symbols of the library models (see govc/models.go) and shared definitions.
logic sha1(Bytes) Bytes len 20
logic sha256(Bytes) Bytes len 32
logic sha512(Bytes) Bytes len 64
logic hmacsha512(Bytes, Bytes) Bytes len 64
logic hmacsha256(Bytes, Bytes) Bytes len 32
logic hkdfsha512(Bytes, Bytes, Bytes, Int, Int) Bytes
logic pbkdf2sha256(Bytes, Bytes, Int, Int) Bytes
logic dh(Bytes, Bytes) Bytes
logic dhpub(Bytes) Bytes
logic oncurve(Val, Val) Bool
logic edok(Bytes, Bytes, Bytes) Bool
logic edsign(Bytes, Bytes) Bytes
logic edpub(Bytes) Bytes
logic ctr(Bytes, Bytes, Bytes) Bytes
logic ctrat(Bytes, Bytes, Int, Bytes) Bytes
logic cbcenc(Bytes, Bytes, Bytes) Bytes
logic cbcdec(Bytes, Bytes, Bytes) Bytes
logic gcmseal(Bytes, Bytes, Bytes, Bytes) Bytes
logic gcmopen(Bytes, Bytes, Bytes, Bytes) Bytes
logic gcmok(Bytes, Bytes, Bytes, Bytes) Bool
logic boxseal(Bytes, Bytes, Bytes) Bytes
logic boxopen(Bytes, Bytes, Bytes) Bytes
logic boxok(Bytes, Bytes, Bytes) Bool
logic b64enc(Bytes) Bytes
logic b64dec(Bytes) Bytes
logic b64ok(Bytes) Bool
logic hexenc(Bytes) Bytes
logic le(Int, Int) Bytes
logic be(Int, Int) Bytes
logic fromle(Bytes) Int
logic frombe(Bytes) Int
logic rep(Int, Int) Bytes
logic lionenc(Bytes, Bytes) Bytes
logic liondec(Bytes, Bytes) Bytes
# decimal numbers below 2^64
logic uintok(Bytes) Bool
logic uintval(Bytes) Int
