package checks

import (
	"math/rand"

	"verif/harness/gen"
)

// opFor draws an operation which accepts texts.
func stringOp(r *rand.Rand) gen.Op {
	switch r.Intn(6) {
	case 0:
		return gen.Op{Type: "changeCase", Args: [][2]string{{"to", gen.Pick(r, []string{"upper", "lower"})}}}
	case 1:
		return gen.Op{Type: "replace", Args: [][2]string{{"regex", gen.Pick(r, []string{"a", "[0-9]+", "^x", "(b)(c)", ".", "\\s+", "o", "(?i)ABC", "x*", "$", "^$", "\\bb", "(?P<n>[a-c])", "[^a-z]", "(?m)^", "a|ab"})}, {"new", gen.Pick(r, []string{"", "R", "$1-", "☃", "new", "$0$0", "$$", "${1}x", "$1x", "${n}!", "\\1"})}}}
	case 2:
		return gen.Op{Type: "toCamelCase", Args: [][2]string{{"delimiter", gen.Pick(r, []string{"-", " ", "_", ",", "--", "o", "."})}}}
	case 3:
		return gen.Op{Type: "valueExists"}
	case 4:
		return gen.Op{Type: "split", Args: [][2]string{{"on", gen.Pick(r, []string{",", "-", " ", ":", "ab", ", ", "::", "", "aa"})}}}
	}
	return gen.Op{Type: "duration"}
}

// anyOp draws any operation with valid arguments except currentTime and removeHTML.
func anyOp(r *rand.Rand) gen.Op {
	switch r.Intn(14) {
	case 0:
		return gen.Op{Type: "inverse"}
	case 1:
		return gen.Op{Type: "max", Args: [][2]string{{"by", gen.Pick(r, []string{"@.id", "@.n"})}, {"return", gen.Pick(r, []string{"@.name", "@.id", "@.tag"})}}}
	case 2:
		return gen.Op{Type: "timeParse", Args: [][2]string{{"format", gen.Pick(r, []string{"2006-01-02", "2006-01-02T15:04:05Z07:00", "15:04", "Jan 2, 2006", "3:04 PM", "02/01/06", "2006-002", "2006-01-02T15:04:05.000Z"})}, {"layout", gen.Pick(r, []string{"2006", "Jan 2, 2006", "2006-01-02T15:04:05Z07:00", "Monday", "15:04:05.000", "06-1-2 3:4:5 pm", "-0700"})}}}
	case 3:
		return gen.Op{Type: "convertToFloat64"}
	case 4:
		return gen.Op{Type: "convertToInt64"}
	case 5, 6:
		return gen.Op{Type: "convertToBool"}
	}
	return stringOp(r)
}

// shuffledArgs lists the arguments in random order.
func shuffledArgs(r *rand.Rand, o gen.Op) gen.Op {
	a := append([][2]string{}, o.Args...)
	r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
	o.Args = a
	return o
}
