// Command go2 is protoc-gen-go-polyglot with all of the generator's hooks used:
// every message has another field, Verif, which comes first on the wire.
package main

import (
	"fmt"
	"go/token"
	"io"
	"os"
	"strings"

	"github.com/loopholelabs/polyglot/v2/generator/golang"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/types/pluginpb"
)

func main() {
	gen := golang.New()
	gen.CustomFields = func() string { return "Verif uint32" }
	gen.CustomEncode = func() string { return "polyglot.Encoder(b).Uint32(x.Verif)" }
	gen.CustomDecode = func() string { return "x.Verif, err = d.Uint32()\nif err != nil {\nreturn err\n}" }
	data, err := io.ReadAll(os.Stdin)
	if err == nil {
		req, err1 := gen.UnmarshalRequest(data)
		if err = err1; err == nil {
			res, err2 := gen.Generate(req)
			if err2 == nil && strings.Contains(req.GetParameter(), "verif=embed") {
				err2 = embed(gen, req, res)
			}
			if err = err2; err == nil {
				data, err = gen.MarshalResponse(res)
			}
		}
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Stdout.Write(data)
}

// embed makes the files that are alone in their Go package in the way of other
// generators, which write a header of their own and add to the file.
func embed(gen *golang.Generator, req *pluginpb.CodeGeneratorRequest, res *pluginpb.CodeGeneratorResponse) error {
	p, err := protogen.Options{ParamFunc: func(string, string) error { return nil }}.New(req)
	if err != nil {
		return err
	}
	n := map[protogen.GoImportPath]int{}
	for _, f := range p.Files {
		n[f.GoImportPath]++
	}
	for _, f := range p.Files {
		if !f.Generate || n[f.GoImportPath] != 1 {
			continue
		}
		g := p.NewGeneratedFile(golang.FileName(f.GeneratedFilenamePrefix), f.GoImportPath)
		name := string(f.Desc.Package().Name())
		if !token.IsIdentifier(name) || name == "_" {
			name = string(f.GoPackageName)
		}
		g.P("// Made by another generator.")
		g.P("package ", name)
		g.P("import (")
		for _, x := range golang.RequiredImports {
			g.P("\"", x, "\"")
		}
		g.P(")")
		g.P("var _ polyglot.Kind")
		if err := gen.ExecuteTemplate(g, f, name, false); err != nil {
			return err
		}
		g.P("const VerifEmbedded = true")
	}
	made := map[string]*string{}
	for _, f := range p.Response().File {
		made[f.GetName()] = f.Content
	}
	for _, f := range res.File {
		if c := made[f.GetName()]; c != nil {
			f.Content = c
		}
	}
	return nil
}
