package vh

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
)

// Hex parses a hexadecimal constant.
func Hex(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("harness: bad constant " + s)
	}
	return v
}

// Dec parses a decimal constant.
func Dec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("harness: bad constant " + s)
	}
	return v
}

func I(x int64) *big.Int { return big.NewInt(x) }

// RFC3526 is the 3072-bit group of the system's own setup.
const RFC3526 = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF
		`

func NewRFC3526() group.Group { return group.NewModPGroup("RFC3526ModPGroup3072", RFC3526, "2") }

// SafePrimes are field orders of small groups of the kind the system uses.
var SafePrimes = map[int]string{
	5:   "17",
	12:  "B93",
	32:  "C9D488B3",
	64:  "841DCD959BFEB43B",
	128: "EF4B7DE201ADC00BCBC332F3E49C6E1F",
	272: "861DAF92513AA02FFB2372758354217486E365AC64C097BB7A9C213EBBEDBBC3F87F",
	400: "C4974EFE1AF211AA7F78665318BCEFCDA10046759E96AE3ED1FFDAD92CD9878FD3D9A78670945C147FDF7FD7F33AC447BB93",
	520: "E436E9EAADEADFCC3C565BA8936873A14359277CE6C9544CB1BBAFD056D064AEFFFB386CA43C7A01C607B900668DC31D8209416A38C859DA726D7FE81C44BB27A7",
}

// SmallModP returns a mod-p group with a safe prime of the given length,
// generated by 4.
func SmallModP(bits int) group.Group {
	return group.NewModPGroup("ModP"+I(int64(bits)).String(), SafePrimes[bits], "4")
}

// TOrders are prime orders for transparent groups.
var TOrders = map[int]string{
	16:  "EC29",
	24:  "842075",
	40:  "93ACB01C31",
	64:  "F9CE44C45E4103FF",
	130: "25EC09A1A3395B425CD1A577428766765",
	200: "FA9B7AB6EA5CCD8A64DD6C15DC2B270CAEA6B9FBC492E48DED",
	253: "1A988DAEDF33D9BC6A1231F32E03B3D8C236E80FBC7BADBA0129746BC0D1E70F",
	256: "FF91E1517DDCFC5A926FD17E46830F78BF3AC970782F04EDAF2BE46E502249ED",
	300: "F8D259A0B4537C12C86653EAFE1E1B107387475BE22E6ED450F0B4E94CAA635DA6612993B59",
	384: "CB3B94946671D7FEC41BD7C2EA5095FEFEEB97217CA651CB71336B59E26A2225952D44B7B3A8DEB46D1C99F98D2B4545",
	400: "FC5E225D5377DD86F61D7BF561938AC2502BE4ADEA0ADFF1F9F049BD95B2C1DA39AC24FCE8C12ED73099FE61CF28BC08544F",
	521: "198ED3BFE40E7D4E8D9F508A6CF244FF1858012BC43A913B05F1B3309DC1CE48302A491C19256F2E3BAFB21FC11EE7F6F499F7401E7060745ECAA9C0B699EF59BC1",
}

// NewT returns a transparent group whose order has the given length.
func NewT(bits int) *TGroup { return NewTGroup(Hex(TOrders[bits])) }
