package suites

import (
	"fmt"
	"go/token"
	"math"
	"strconv"
)

const eql = token.EQL

func itoa(n int) string { return strconv.Itoa(n) }

func fmtInts(l []int) string { return fmt.Sprint(l) }

func floatBits(x uint64) float64 { return math.Float64frombits(x) }
