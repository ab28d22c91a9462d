package mute/cipher/aes256

func CBCEncrypt(key, plaintext, rand) (ciphertext)
  requires rand != nil
  prop C01
  maypanic len(key) != 32 || len(plaintext) % 16 != 0 || count("read") == 1
  ensures len(key) == 32 && len(plaintext) % 16 == 0
  ensures len(ciphertext) == 16 + len(plaintext)
  ensures count("read") == 1 && evarg("read", 0, "r") == rand && evarg("read", 0, "data") == sub(bytes(ciphertext), 0, 16)
  ensures bytes(ciphertext) == cat(sub(bytes(ciphertext), 0, 16), cbcenc(key, sub(bytes(ciphertext), 0, 16), plaintext))

func CBCDecrypt(key, ciphertext) (plaintext)
  prop C01
  maypanic len(key) != 32 || len(ciphertext) < 16 || len(ciphertext) % 16 != 0
  ensures len(key) == 32 && len(ciphertext) >= 16 && len(ciphertext) % 16 == 0
  ensures bytes(plaintext) == cbcdec(key, sub(ciphertext, 0, 16), sub(ciphertext, 16, len(ciphertext)))

func CTREncrypt(key, plaintext, rand) (ciphertext)
  inline
  requires rand != nil
  prop C01
  maypanic len(key) != 32 || count("read") == 1
  ensures len(key) == 32
  ensures len(ciphertext) == 16 + len(plaintext)
  ensures count("read") == 1 && evarg("read", 0, "r") == rand && evarg("read", 0, "data") == sub(bytes(ciphertext), 0, 16)
  ensures bytes(ciphertext) == cat(sub(bytes(ciphertext), 0, 16), ctr(key, sub(bytes(ciphertext), 0, 16), plaintext))

func CTRDecrypt(key, ciphertext) (plaintext)
  prop C01
  maypanic len(key) != 32 || len(ciphertext) < 16
  ensures len(key) == 32 && len(ciphertext) >= 16
  ensures bytes(plaintext) == ctr(key, sub(ciphertext, 0, 16), sub(ciphertext, 16, len(ciphertext)))
