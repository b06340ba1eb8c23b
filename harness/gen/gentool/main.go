// Command gentool runs code generator plugins on schemas: for every schema on
// stdin (one JSON object per line) it builds the plugin request, runs the
// plugin twice, and writes the generated files below the output directory.
// Usage: gentool PLUGIN OUTDIR
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type Field struct {
	N  string `json:"n"`  // name
	C  string `json:"c"`  // one, list, map
	P  int32  `json:"p"`  // protobuf type
	KP int32  `json:"kp"` // protobuf type of the map key
	M  int    `json:"m"`  // message index, from 1
	E  int    `json:"e"`  // enum index, from 1
	No int32  `json:"no"` // number
	Of int32  `json:"of"` // oneof, from 1
	Rq bool   `json:"rq"` // required (proto2)
}
type Msg struct {
	Name   string  `json:"name"`
	In     int     `json:"in"` // enclosing message, 0: none
	File   int     `json:"file"`
	Fields []Field `json:"fields"`
}
type Enum struct {
	Name   string   `json:"name"`
	In     int      `json:"in"`
	File   int      `json:"file"`
	Values []string `json:"values"`
	Nums   []int32  `json:"nums"`
}
type Schema struct {
	ID     int    `json:"id"`
	Pkg    string `json:"pkg"`
	Dir    string `json:"dir"`
	Param  string `json:"param"`  // of the plugin
	Plugin string `json:"plugin"` // instead of the one of the command line
	NFiles int    `json:"nfiles"` // 0: one; each imports the earlier ones
	Svc    bool   `json:"svc"`    // also declares a service
	Proto2 bool   `json:"proto2"`
	Path   string `json:"path"`  // directory of the files
	Stem   string `json:"stem"`  // end of their names
	NoPkg  bool   `json:"nopkg"` // the Go package is a parameter instead of an option
	Big    int    `json:"big"`   // size of the comments in the source
	Deco   bool   `json:"deco"`  // options that change nothing
	Msgs   []Msg  `json:"msgs"`
	Enums  []Enum `json:"enums"`
}
type Result struct {
	ID    int      `json:"id"`
	OK    bool     `json:"ok"`
	Same  bool     `json:"same"`
	Files []string `json:"files"`
	Names []string `json:"names"` // as the plugin gave them
	Last  []string `json:"last"`  // when asked for the last file only
	Err   string   `json:"err"`
}

func camel(s string) string { // name of a map entry, as protoc makes it
	var b strings.Builder
	up := true
	for _, c := range s {
		if c == '_' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteRune(c)
		}
		up = false
	}
	return b.String() + "Entry"
}

func (s *Schema) msgName(i int) string {
	n := ""
	for ; i > 0; i = s.Msgs[i-1].In {
		n = "." + s.Msgs[i-1].Name + n
	}
	if s.Pkg != "" {
		n = "." + s.Pkg + n
	}
	return n
}
func (s *Schema) enumName(i int) string {
	e := s.Enums[i-1]
	return s.msgName(e.In) + "." + e.Name
}

func typed(s *Schema, f *descriptorpb.FieldDescriptorProto, p int32, m, e int) {
	f.Type = descriptorpb.FieldDescriptorProto_Type(p).Enum()
	if p == 11 {
		f.TypeName = proto.String(s.msgName(m))
	} else if p == 14 {
		f.TypeName = proto.String(s.enumName(e))
	}
}

func (s *Schema) request() *pluginpb.CodeGeneratorRequest {
	req := &pluginpb.CodeGeneratorRequest{}
	n := max(s.NFiles, 1)
	fds := make([]*descriptorpb.FileDescriptorProto, n)
	for i := range fds {
		name := s.Path + s.Dir
		if i > 0 {
			name += fmt.Sprintf("_%d", i)
		}
		name += s.Stem
		fd := &descriptorpb.FileDescriptorProto{
			Name: proto.String(name + ".proto"), Syntax: proto.String("proto3"),
			Options: &descriptorpb.FileOptions{GoPackage: proto.String("gen/" + s.Dir)},
		}
		if s.ID%5 < 3 { // several Go packages of one name
			*fd.Options.GoPackage += ";same"
		}
		if s.NoPkg {
			fd.Options.GoPackage = nil
		}
		if s.Big > 0 {
			fd.SourceCodeInfo = &descriptorpb.SourceCodeInfo{Location: []*descriptorpb.SourceCodeInfo_Location{
				{Path: []int32{4, 0}, Span: []int32{1, 0, 3, 1}, LeadingComments: proto.String(strings.Repeat("a long comment\n", s.Big/15))}}}
		}
		if s.Deco {
			fd.Options.JavaPackage = proto.String("x.y")
			fd.Options.Deprecated = proto.Bool(true)
			fd.Options.OptimizeFor = descriptorpb.FileOptions_CODE_SIZE.Enum()
		}
		if s.Pkg != "" {
			fd.Package = proto.String(s.Pkg)
		}
		for j := 0; j < i; j++ {
			fd.Dependency = append(fd.Dependency, *fds[j].Name)
		}
		if s.Proto2 {
			fd.Syntax = nil
		}
		fds[i] = fd
		req.FileToGenerate = append(req.FileToGenerate, *fd.Name)
		req.ProtoFile = append(req.ProtoFile, fd)
	}
	ms := make([]*descriptorpb.DescriptorProto, len(s.Msgs))
	for i, m := range s.Msgs {
		d := &descriptorpb.DescriptorProto{Name: proto.String(m.Name)}
		for n, f := range m.Fields {
			x := &descriptorpb.FieldDescriptorProto{Name: proto.String(f.N), Number: proto.Int32(f.No),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: proto.String(fmt.Sprintf("j%d", n))}
			if f.Rq && s.Proto2 && f.C == "one" && f.Of == 0 {
				x.Label = descriptorpb.FieldDescriptorProto_LABEL_REQUIRED.Enum()
			}
			if f.C != "one" {
				x.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
			}
			if f.C == "map" {
				k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: proto.String("key")}
				v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: proto.String("value")}
				typed(s, k, f.KP, 0, 0)
				typed(s, v, f.P, f.M, f.E)
				en := camel(f.N)
				d.NestedType = append(d.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{k, v},
					Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
				x.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				x.TypeName = proto.String(s.msgName(i+1) + "." + en)
			} else {
				typed(s, x, f.P, f.M, f.E)
			}
			if f.Of > 0 {
				for len(d.OneofDecl) < int(f.Of) {
					d.OneofDecl = append(d.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("one_of_%d", len(d.OneofDecl)))})
				}
				x.OneofIndex = proto.Int32(f.Of - 1)
			}
			if s.Deco {
				x.Options = &descriptorpb.FieldOptions{Deprecated: proto.Bool(true)}
				if f.C == "list" && f.P != 9 && f.P != 11 && f.P != 12 {
					x.Options.Packed = proto.Bool(n%2 == 0)
				}
				if s.Proto2 && f.C == "one" && f.P == 13 {
					x.DefaultValue = proto.String("5")
				}
				if s.Proto2 && f.C == "one" && f.P == 9 {
					x.DefaultValue = proto.String("five")
				}
			}
			d.Field = append(d.Field, x)
		}
		if s.Deco {
			d.Options = &descriptorpb.MessageOptions{Deprecated: proto.Bool(true)}
			d.ReservedName = []string{"verif_reserved"}
			d.ReservedRange = []*descriptorpb.DescriptorProto_ReservedRange{{Start: proto.Int32(5000), End: proto.Int32(5010)}}
			if s.Proto2 { // an extension is no field of the message
				d.ExtensionRange = []*descriptorpb.DescriptorProto_ExtensionRange{{Start: proto.Int32(6000), End: proto.Int32(6010)}}
				fds[m.File].Extension = append(fds[m.File].Extension, &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("verif_ext_%d", i)), Number: proto.Int32(6001),
					Extendee: proto.String(s.msgName(i + 1)), Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()})
			}
		}
		ms[i] = d
	}
	for i, m := range s.Msgs {
		if m.In > 0 {
			ms[m.In-1].NestedType = append(ms[m.In-1].NestedType, ms[i])
		} else {
			fds[m.File].MessageType = append(fds[m.File].MessageType, ms[i])
			if s.Svc {
				t := proto.String(s.msgName(i + 1))
				fds[m.File].Service = append(fds[m.File].Service, &descriptorpb.ServiceDescriptorProto{Name: proto.String(fmt.Sprintf("VerifService%d", i)),
					Method: []*descriptorpb.MethodDescriptorProto{{Name: proto.String("Call"), InputType: t, OutputType: t}, {Name: proto.String("Stream"), InputType: t, OutputType: t, ServerStreaming: proto.Bool(true)}}})
			}
		}
	}
	for _, e := range s.Enums {
		d := &descriptorpb.EnumDescriptorProto{Name: proto.String(e.Name)}
		used := map[int32]bool{}
		for j, v := range e.Values {
			if used[e.Nums[j]] {
				d.Options = &descriptorpb.EnumOptions{AllowAlias: proto.Bool(true)}
			}
			used[e.Nums[j]] = true
			d.Value = append(d.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(v), Number: proto.Int32(e.Nums[j])})
		}
		if e.In > 0 {
			ms[e.In-1].EnumType = append(ms[e.In-1].EnumType, d)
		} else {
			fds[e.File].EnumType = append(fds[e.File].EnumType, d)
		}
	}
	return req
}

func run(plugin string, in []byte) ([]byte, error) {
	c := exec.Command(plugin)
	c.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(60*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err != nil {
		return nil, fmt.Errorf("%v: %.400s", err, e.String())
	}
	return o.Bytes(), nil
}

// With the schemas of all of stdin at hand, each is also generated together
// with up to two others of other packages, in one request; Same says that each
// of the three runs gave the same file.
func main() {
	plugin, out := os.Args[1], os.Args[2]
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<24)
	enc := json.NewEncoder(os.Stdout)
	var all []Schema
	for sc.Scan() {
		var s Schema
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		all = append(all, s)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i, s := range all {
		wg.Add(1)
		slots <- true
		go func() {
			group := []Schema{s}
			for j := 1; j < len(all) && j < 12 && len(group) < 3; j++ {
				x := all[(i+j)%len(all)]
				ok := s.Pkg != ""
				for _, y := range group {
					ok = ok && x.Pkg != "" && x.Pkg != y.Pkg
				}
				if ok {
					group = append(group, x)
				}
			}
			if i%2 == 1 { // first or last of its request
				group[0], group[len(group)-1] = group[len(group)-1], group[0]
			}
			r := one(s, group, plugin, out)
			mu.Lock()
			enc.Encode(r)
			mu.Unlock()
			<-slots
			wg.Done()
		}()
	}
	wg.Wait()
}

func generate(plugin, param string, last bool, ss ...Schema) (*pluginpb.CodeGeneratorResponse, error) {
	req := &pluginpb.CodeGeneratorRequest{}
	for _, s := range ss {
		one := s.request()
		req.FileToGenerate = append(req.FileToGenerate, one.FileToGenerate...)
		req.ProtoFile = append(req.ProtoFile, one.ProtoFile...)
	}
	if last {
		req.FileToGenerate = req.FileToGenerate[len(req.FileToGenerate)-1:]
	}
	for _, s := range ss {
		if !s.NoPkg {
			continue
		}
		for _, f := range s.request().ProtoFile {
			if param != "" {
				param += ","
			}
			param += "M" + f.GetName() + "=gen/" + s.Dir
		}
	}
	if param != "" {
		req.Parameter = proto.String(param)
	}
	in, err := proto.Marshal(req)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	b, err := run(plugin, in)
	if err != nil {
		return nil, err
	}
	res := new(pluginpb.CodeGeneratorResponse)
	if err = proto.Unmarshal(b, res); err != nil {
		return nil, err
	}
	if res.Error != nil {
		return nil, fmt.Errorf("%s", *res.Error)
	}
	return res, nil
}

func one(s Schema, group []Schema, plugin, out string) Result {
	r := Result{ID: s.ID}
	if s.Plugin != "" {
		plugin = s.Plugin
	}
	want := 0
	for _, g := range group {
		want += max(g.NFiles, 1)
	}
	res, err := generate(plugin, s.Param, false, s)
	var again, together *pluginpb.CodeGeneratorResponse
	if err == nil {
		again, err = generate(plugin, s.Param, false, s)
	}
	if err == nil {
		together, err = generate(plugin, s.Param, false, group...)
	}
	last := res
	if err == nil && s.NFiles > 1 {
		last, err = generate(plugin, s.Param, true, s)
	}
	// the others of the group are there, but not asked for
	only := res
	if err == nil && s.NFiles <= 1 {
		var gs []Schema
		for _, g := range group {
			if g.ID != s.ID {
				gs = append(gs, g)
			}
		}
		only, err = generate(plugin, s.Param, true, append(gs, s)...)
	}
	if err != nil {
		r.Err = err.Error()
		return r
	}
	r.OK = true
	r.Same = proto.Equal(res, again) && len(together.File) == want && proto.Equal(res, only)
	for _, f := range last.File {
		r.Last = append(r.Last, f.GetName())
	}
	for _, f := range res.File {
		found := false
		for _, g := range together.File {
			found = found || proto.Equal(f, g)
		}
		r.Same = r.Same && found
		p := filepath.Join(out, s.Dir, filepath.Base(f.GetName()))
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(f.GetContent()), 0o644); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(3)
		}
		r.Files = append(r.Files, p)
		r.Names = append(r.Names, f.GetName())
	}
	return r
}
