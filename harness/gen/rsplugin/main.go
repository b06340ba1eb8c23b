// Command rsplugin is protoc-gen-rs-polyglot with the generator of Go v2.
package main

import (
	"fmt"
	"io"
	"os"

	"github.com/loopholelabs/polyglot/v2/generator/rust"
)

func main() {
	gen := rust.New()
	data, err := io.ReadAll(os.Stdin)
	if err == nil {
		req, err1 := gen.UnmarshalRequest(data)
		if err = err1; err == nil {
			res, err2 := gen.Generate(req)
			if err = err2; err == nil {
				data, err = gen.MarshalResponse(res)
			}
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(data)
}
