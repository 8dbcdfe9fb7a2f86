package dkv/kv

props C07 C18 C03

iface reduction.dev/reduction/dkv/kv.(Entry).Key(e) (k)
	ensures view(k) == entkey(e)
iface reduction.dev/reduction/dkv/kv.(Entry).SeqNum(e) (n)
	ensures n == entseq(e) && n >= 0
ufun entkey(Entry) str
ufun entseq(Entry) int

func AscendingEntries(a, b) (c)
	ensures c < 0 <==> strlt(entkey(a), entkey(b))
	ensures c > 0 <==> strlt(entkey(b), entkey(a))
	ensures c == 0 <==> entkey(a) == entkey(b)

// of two entries of the same key the one written later survives
func keepNewest(a, b) (e)
	ensures e == a || e == b
	ensures entseq(e) >= entseq(a) && entseq(e) >= entseq(b)
