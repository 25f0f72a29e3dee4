package ant

import (
	"encoding/json"
	"math/rand"
	"os"
	"strconv"
)

// vseeds are strings and integers of the verifier's counterexamples.
func vseedsReplay() (ss []string, is []int64) {
	b, err := os.ReadFile(os.Getenv("VERIF_SEEDS"))
	if err != nil {
		return
	}
	var raw []string
	json.Unmarshal(b, &raw)
	for _, r := range raw {
		if r == "" {
			continue
		}
		if r[0] == 's' {
			ss = append(ss, r[1:])
		} else if n, err := strconv.ParseInt(r[1:], 10, 64); err == nil {
			is = append(is, n)
		}
	}
	return
}

var vrndReplay = rand.New(rand.NewSource(1))

func vpickReplay[T any](xs ...T) T { return xs[vrndReplay.Intn(len(xs))] }
