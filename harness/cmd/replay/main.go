// Command replay executes harnesses natively. It reads one replay (JSON) per line and answers with
// one result line each; with file arguments it runs those replays and reports.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"vlverif/harness/sym"
)

var registry = map[string]func(){}

func one(r *sym.Replay) sym.Result {
	h, ok := registry[r.Harness]
	if !ok {
		return sym.Result{Status: "error", Label: "no such harness"}
	}
	res := sym.Execute(r, h, false)
	for i := 0; i < r.Repeat && res.Status != "violation"; i++ {
		res = sym.Execute(r, h, r.Threads)
	}
	return res
}

func main() {
	out := os.Stdout
	// the code under test prints; keep its output away from the protocol
	if n, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	if len(os.Args) > 1 {
		rc := 0
		for _, f := range os.Args[1:] {
			b, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(out, err)
				os.Exit(2)
			}
			var r sym.Replay
			if err := json.Unmarshal(b, &r); err != nil {
				fmt.Fprintln(out, err)
				os.Exit(2)
			}
			res := one(&r)
			fmt.Fprintln(out, f, res.Status, res.Label)
			for _, o := range res.Obs {
				fmt.Fprintln(out, "  ", o)
			}
			if res.Status == "violation" {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var r sym.Replay
		if err := json.Unmarshal(sc.Bytes(), &r); err != nil {
			fmt.Fprintln(out, `@@VLRESULT {"status":"error"}`)
			continue
		}
		b, _ := json.Marshal(one(&r))
		fmt.Fprintf(out, "@@VLRESULT %s\n", b)
	}
}
