package jlibhttp

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
)

// vrun drives one search: f is called until it reports a failing input, the
// budget is spent or n rounds are done.
func vrun(t *testing.T, n int, f func(r *rand.Rand) string) {
	log.SetOutput(ioutil.Discard)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S"))
	if err != nil {
		secs = 20
	}
	end := time.Now().Add(time.Duration(secs) * time.Second / 3)
	for i := 0; i < n && time.Now().Before(end); i++ {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		msg := func() (msg string) {
			defer func() {
				if p := recover(); p != nil {
					msg = fmt.Sprintf("unexpected panic: %v", p)
				}
			}()
			return f(r)
		}()
		if msg != "" {
			fmt.Printf("FAILING-INPUT %s (round %d): %s\n", t.Name(), i, msg)
			t.FailNow()
		}
	}
}

func vshow(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

func vpick(r *rand.Rand, xs ...string) string { return xs[r.Intn(len(xs))] }

func vtext(r *rand.Rand, pool ...string) string {
	var b strings.Builder
	for i := r.Intn(5); i > 0; i-- {
		b.WriteString(pool[r.Intn(len(pool))])
	}
	return b.String()
}
