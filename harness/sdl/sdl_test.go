package sdl

import (
	"os"
	"testing"
)

func TestGolden(t *testing.T) {
	for _, f := range []string{"complex", "simple", "nested"} {
		b, err := os.ReadFile("/repo/generate/graphql_test_data/nonest/" + f + ".graphqls")
		if err != nil {
			t.Fatal(err)
		}
		ts, err := Parse(string(b))
		if err != nil || len(ts) == 0 {
			t.Fatal(f, err)
		}
		b, _ = os.ReadFile("/repo/generate/graphql_test_data/" + f + ".graphqls")
		if _, err := Parse(string(b)); err == nil {
			t.Fatal(f, "no error")
		}
	}
}
