package vh

// LeadingZeroScalars are scalars k such that a coordinate of kG starts with
// one or more zero bytes (found by search; the tests count how many do).
var LeadingZeroScalars = map[string][]int64{
	"P-256":     {43, 379, 444, 552, 742, 751, 783, 833, 997, 1094, 1307, 1486, 2376, 40393, 61552, 77299, 116173, 120189},
	"P-384":     {176, 197, 234, 463, 550, 831, 1069, 1163, 1247, 1283, 1425, 1511, 14971, 40603, 64109, 93150, 119438, 142047},
	"secp256k1": {122, 130, 153, 246, 533, 544, 649, 726, 886, 1158, 1417, 1436, 41192, 44629, 58165, 63439, 68831},
}
