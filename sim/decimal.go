package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/tychoish/birch/types"
)

// What a 128-bit decimal and its text stand for, by the BSON specification
// (binary integer decimals) and independent of the code that converts them.

var decMax = new(big.Int).Sub(new(big.Int).Exp(big.NewInt(10), big.NewInt(34), nil), big.NewInt(1))

func decBits(d types.Decimal128) string {
	h, l := d.GetBytes()
	sign := ""
	if h>>63 == 1 {
		sign = "-"
	}
	switch h >> 58 & 31 {
	case 31:
		return "dec(NaN)"
	case 30:
		return "dec(" + sign + "Infinity)"
	}
	exp := int(h >> 49 & (1<<14 - 1))
	coef := new(big.Int).SetUint64(h & (1<<49 - 1))
	coef.Lsh(coef, 64).Or(coef, new(big.Int).SetUint64(l))
	if h>>61&3 == 3 {
		exp = int(h >> 47 & (1<<14 - 1))
		coef.SetInt64(0)
	}
	if coef.Cmp(decMax) > 0 {
		coef.SetInt64(0) // not canonical
	}
	return fmt.Sprintf("dec(%s%sE%d)", sign, coef, exp-6176)
}

var decNumber = regexp.MustCompile(`^([+-]?)([0-9]*)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?$`)

// decText gives false for what is no decimal, has too many digits, or an
// exponent beyond the range.
func decText(s string) (string, bool) {
	switch low := strings.ToLower(s); strings.TrimLeft(low, "+-") {
	case "nan":
		return "dec(NaN)", low == "nan"
	case "inf", "infinity":
		sign := ""
		if low[0] == '-' {
			sign = "-"
		}
		return "dec(" + sign + "Infinity)", len(low) > 1 && low[1] >= 'a'
	}
	m := decNumber.FindStringSubmatch(s)
	if m == nil || m[2]+m[3] == "" || strings.HasSuffix(strings.TrimRight(s, "eE0123456789+-"), ".") && m[3] == "" {
		return "", false
	}
	exp := 0
	if m[4] != "" {
		var err error
		if exp, err = strconv.Atoi(m[4]); err != nil {
			return "", false
		}
	}
	exp -= len(m[3])
	digits := strings.TrimLeft(m[2]+m[3], "0")
	if len(digits) > 34 || exp < -6176 || exp > 6111 {
		return "", false
	}
	if digits == "" {
		digits = "0"
	}
	return fmt.Sprintf("dec(%sE%d)", strings.TrimPrefix(m[1], "+")+digits, exp), true
}

// genDecimal is any decimal, often one near the limits.
func genDecimal(t *T) types.Decimal128 {
	var h, l uint64
	switch t.Int(6) {
	case 0:
		h, l = t.U64(), t.U64()
	case 1:
		h = []uint64{0x1f << 58, 0x1e << 58, 0x3e << 58}[t.Int(3)]
	default:
		coef := new(big.Int)
		switch t.Int(5) {
		case 0:
			coef.Sub(decMax, big.NewInt(int64(t.Int(3))))
		case 1:
			coef.SetInt64(int64(t.Int(1000)))
		case 2:
			coef.SetUint64(t.U64())
		default:
			coef.Exp(big.NewInt(10), big.NewInt(int64(t.Int(34))), nil)
			coef.Mul(coef, big.NewInt(int64(1+t.Int(9))))
			coef.Sub(coef, big.NewInt(int64(t.Int(2))))
		}
		if coef.Cmp(decMax) > 0 {
			coef.Set(decMax)
		}
		exp := []int{0, -t.Int(50), t.Int(12), -6176 + t.Int(40), 6111 - t.Int(3), t.Int(12288) - 6176}[t.Int(6)]
		l = new(big.Int).And(coef, new(big.Int).SetUint64(1<<64-1)).Uint64()
		h = new(big.Int).Rsh(coef, 64).Uint64() | uint64(exp+6176)<<49 | uint64(t.Int(2))<<63
	}
	return types.NewDecimal128(h, l)
}

// decimalText is how somebody may write a decimal.
func decimalText(t *T) string {
	if t.Chance(1, 6) {
		return []string{"NaN", "nan", "Infinity", "-Infinity", "inf", "-INF", "+Infinity"}[t.Int(7)]
	}
	digits := func(n int) string {
		var sb strings.Builder
		for i := 0; i < n; i += 9 {
			fmt.Fprintf(&sb, "%09d", t.Int(1e9))
		}
		s := sb.String()[:n]
		if t.Chance(1, 4) {
			z := t.Int(n + 1)
			s = s[:z] + strings.Repeat("0", n-z)
		}
		return s
	}
	s := []string{"", "", "-", "+"}[t.Int(4)] + strings.Repeat("0", t.Int(3))
	s += digits(1 + t.Int(20))
	if t.Chance(1, 2) {
		s += "." + digits(1+t.Int(16))
	}
	if t.Chance(1, 2) {
		s += []string{"E", "e"}[t.Int(2)] + []string{"", "-", "+"}[t.Int(3)] + strconv.Itoa([]int{t.Int(10), t.Int(6112), 6100 + t.Int(80)}[t.Int(3)])
	}
	return s
}
