// Command run replays solver models on the natively compiled code.
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/mem-memov/semnet/internal/zzverif/nd"
)

type item struct {
	Harness string   `json:"harness"`
	Vec     []uint64 `json:"vec"`
}

type outcome struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func one(i item) (o outcome) {
	defer func() {
		o.Obs = nd.Observations()
		if r := recover(); r != nil {
			if s, ok := r.(nd.Stop); ok {
				o.Status, o.Msg = s.Status, s.Msg
				return
			}
			o.Status, o.Msg = "panic", fmt.Sprint(r)
		}
	}()
	nd.Begin(i.Vec)
	f := registry[i.Harness]
	if f == nil {
		return outcome{Status: "missing"}
	}
	f()
	o.Status = "ok"
	return
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var items []item
	if err := json.Unmarshal(b, &items); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, i := range items {
		o, _ := json.Marshal(one(i))
		fmt.Println(string(o))
	}
}
