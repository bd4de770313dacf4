package vt

import (
	"crypto/sha256"
	"encoding/binary"
)

// twins are private keys, found by search, whose public keys agree in pairs in
// their first or last five bytes: those of even index in the first, of odd
// index in the last. Code which tells keys apart by a part of them only, as
// lookups by prefix or short checksums do, confuses them.
var twins = [...][2]uint32{
	{4594117, 2387632}, {5848160, 2500127},
	{4101583, 5824746}, {8230039, 3100100},
	{4194296, 204668}, {1301461, 7583783},
	{5112178, 5305777}, {1965825, 1368599},
	{5734621, 7515385}, {3127125, 7578346},
	{3184027, 6496727}, {3198792, 4476848},
	{7609396, 7274634}, {4009246, 6946328},
	{4481895, 6278938}, {7820110, 5170620},
	{5242937, 579944}, {2859150, 7541919},
	{946677, 5740533}, {3175550, 5673374},
	{3474025, 3277171}, {7247495, 6715223},
	{6760779, 4403045}, {6023009, 1115395},
	{2629724, 8303736}, {3717837, 4169526},
	{422533, 125913}, {4038162, 7182161},
	{3894746, 6761724}, {1717917, 2129006},
	{560817, 4946960}, {8121085, 3130700},
	{8223249, 1948521}, {7110584, 6590972},
	{6186162, 85455}, {1930092, 5252303},
	{3298985, 681713}, {7643477, 3073449},
	{7236411, 2465742}, {1262819, 1365052},
	{7558162, 3202940}, {4868327, 7141702},
	{1949926, 4589261}, {7987633, 3408383},
	{5807459, 2926509}, {77897, 8113332},
	{761146, 1338322}, {4112562, 2253552},
	{4079549, 75390}, {4695411, 8200984},
	{4818875, 2145696}, {6675508, 907582},
	{6489092, 6772257}, {2058542, 1462357},
	{5043842, 7434009}, {2020239, 2777477},
	{3254283, 8066739}, {4468445, 3600925},
	{1038858, 3585327}, {5407855, 1149473},
	{382881, 7679477}, {5192694, 6194264},
	{1056329, 6785159}, {6077961, 8201926},
	{4007429, 8030297}, {5584615, 7172031},
	{1642213, 6074295}, {1594833, 6949392},
	{7431166, 7882375}, {7959213, 3975805},
	{801544, 3167305}, {6441479, 2583328},
	{4146492, 6722896}, {6664196, 6983737},
	{6614054, 2219612}, {7927183, 8219932},
	{6279904, 4922611}, {618761, 6922026},
	{735399, 2221627}, {2128205, 2332028},
}

// NTwins is the number of pairs.
const NTwins = len(twins)

// Twin is one of the two private keys of a pair.
func Twin(pair, i int) []byte {
	var b [12]byte
	copy(b[:], "twin key")
	binary.LittleEndian.PutUint32(b[8:], twins[pair][i])
	h := sha256.Sum256(b[:])
	return h[:]
}
