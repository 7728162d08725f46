package main

import (
	"os"
	"testing"
)

// C41: no argument prints usage and then panics on args[1].
func TestDefectNoArgs(t *testing.T) {
	old := os.Args
	defer func() {
		os.Args = old
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	os.Args = []string{"magurohttp"}
	main()
}
