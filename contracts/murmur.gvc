package util/murmur

props C05 C01

// MurmurHash3 x86_32, written from the algorithm's definition (bit-vectors of 32 bits).
define mix(k) = rotl32(k * bv(0xcc9e2d51), 15) * bv(0x1b873593)
define word(a, i) = bv(a[i]) | shl(bv(a[i+1]), 8) | shl(bv(a[i+2]), 16) | shl(bv(a[i+3]), 24)
define rotl32(x, n) = shl(x, n) | shr(x, 32 - n)
define stepW(h, k) = rotl32(h ^ mix(k), 13) * bv(5) + bv(0xe6546b64)
define tailW(a, o, n) =
	n == 3 ? (bv(a[o]) ^ shl(bv(a[o+1]), 8) ^ shl(bv(a[o+2]), 16))
	: n == 2 ? (bv(a[o]) ^ shl(bv(a[o+1]), 8))
	: n == 1 ? bv(a[o]) : bv(0)

// the hash state after absorbing the n bytes of a starting at o, from state h
rec mmabsorb(a: bytearr, o: int, n: int, h: bv) bv = n >= 4 ? mmabsorb(a, o + 4, n - 4, stepW(h, word(a, o))) : (h ^ mix(tailW(a, o, n)))

define fx1(h) = (h ^ shr(h, 16)) * bv(0x85ebca6b)
define fx2(h) = (h ^ shr(h, 13)) * bv(0xc2b2ae35)
define fx3(h) = h ^ shr(h, 16)
define fmix(h) = let a = fx1(h); let b = fx2(a); fx3(b)

// The mathematical function computed by Hash; callers see Hash only through it.
ufun mmhash(str, int) int

func Hash(data, seed) (r)
	option bv fn=mmhash
	requires 0 <= seed < 4294967296
	ensures r == fmix(mmabsorb(arr(old(data)), off(old(data)), len(old(data)), bv(seed)) ^ bv(len(old(data))))
	invariant mmabsorb(arr(data), off(data), len(data), h1) == mmabsorb(arr(old(data)), off(old(data)), len(old(data)), bv(seed))
