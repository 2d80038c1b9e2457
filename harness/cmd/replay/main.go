// Command replay runs one harness natively on the inputs of a replay file.
package main

import (
	"fmt"
	"os"
	"time"

	"github.com/sirupsen/logrus"
	"github.com/unidoc/unitype/vpharness/sym"
)

func main() {
	sym.Child()
	logrus.SetLevel(logrus.PanicLevel)
	fn, rep := sym.Load(os.Args[1])
	f := registry[fn]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", fn)
		os.Exit(5)
	}
	// A single repetition that takes longer than the limit hangs; there are as many of them
	// as fit in the time.
	limit, _ := time.ParseDuration(os.Getenv("VP_LIMIT"))
	start := time.Now()
	for i := 0; i < rep; i++ {
		if limit > 0 {
			if i > 0 && time.Since(start) > limit {
				break
			}
			t := time.AfterFunc(limit, func() {
				fmt.Println("HANG")
				os.Exit(6)
			})
			sym.Reset(i > 0)
			f()
			t.Stop()
			continue
		}
		sym.Reset(i > 0)
		f()
	}
	fmt.Println("DONE")
}
