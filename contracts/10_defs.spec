# Definitions shared by the contracts.
logic jsonmap(Val) Bytes
logic structsmap(Val) Val
# the canonical (sorted) JSON of a message
def canon(p) = jsonmap(structsmap(deepx(p)))
def edverify(pub, m, sig) = edok(pub, m, sig)

# the clock
extern mute/util/times.Now() (t)
  event now
  why the system clock reads any time after 1970
  ensures t >= 0
