package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// genError: the code generator does not produce usable code.
type genError struct{ msg, out string }

func (e *genError) Error() string { return e.msg }

// pb is a minimal protobuf encoder.
type pb struct{ b []byte }

func (p *pb) varint(v uint64) {
	for v >= 0x80 {
		p.b = append(p.b, byte(v)|0x80)
		v >>= 7
	}
	p.b = append(p.b, byte(v))
}

func (p *pb) str(f int, s string) *pb {
	p.varint(uint64(f)<<3 | 2)
	p.varint(uint64(len(s)))
	p.b = append(p.b, s...)
	return p
}

func (p *pb) num(f int, v uint64) *pb {
	p.varint(uint64(f) << 3)
	p.varint(v)
	return p
}

func (p *pb) msg(f int, m *pb) *pb { return p.str(f, string(m.b)) }

type protoMethod struct {
	name, in, out string
	cs, ss        bool
	comment       string
}

type protoService struct {
	name    string
	methods []protoMethod
}

type protoFile struct {
	name, pkg, goPkg string
	deps, msgs       []string
	services         []protoService
}

func (f *protoFile) encode() *pb {
	d := (&pb{}).str(1, f.name)
	if f.pkg != "" {
		d.str(2, f.pkg)
	}
	for _, x := range f.deps {
		d.str(3, x)
	}
	for _, m := range f.msgs {
		d.msg(4, (&pb{}).str(1, m))
	}
	info := &pb{}
	for i, s := range f.services {
		sd := (&pb{}).str(1, s.name)
		for j, m := range s.methods {
			md := (&pb{}).str(1, m.name).str(2, m.in).str(3, m.out)
			if m.cs {
				md.num(5, 1)
			}
			if m.ss {
				md.num(6, 1)
			}
			sd.msg(2, md)
			if m.comment != "" {
				path := &pb{}
				for _, k := range []uint64{6, uint64(i), 2, uint64(j)} {
					path.varint(k)
				}
				info.msg(1, (&pb{}).str(1, string(path.b)).str(2, "\x01\x01\x01").str(3, m.comment))
			}
		}
		d.msg(6, sd)
	}
	d.msg(8, (&pb{}).str(11, f.goPkg))
	d.msg(9, info)
	return d.str(12, "proto3")
}

// genFiles are the schemas the generator is run on for C28.
func genFiles() []*protoFile {
	own := zzPath + "/c28;c28"
	echo := &protoFile{name: "echo/echo.proto", pkg: "echo", goPkg: modPath + "/echo", msgs: []string{"EchoMsg"}}
	a := &protoFile{name: "c28/a.proto", pkg: "zz.gen", goPkg: own, deps: []string{"echo/echo.proto"}, msgs: []string{"In", "Out"}, services: []protoService{
		{"Zeta", []protoMethod{
			{"Unary", ".zz.gen.In", ".zz.gen.Out", false, false, " Unary does one thing.\n In two lines.\n"},
			{"client_stream", ".zz.gen.In", ".zz.gen.Out", true, false, ""},
			{"ServerStream", ".zz.gen.In", ".zz.gen.Out", false, true, " ServerStream streams.\n"},
			{"bidi", ".zz.gen.In", ".zz.gen.Out", true, true, ""},
			{"Another", ".zz.gen.In", ".zz.gen.In", false, false, ""},
			{"Unary2", ".zz.gen.Out", ".zz.gen.In", false, false, ""},
			{"Imported", ".echo.EchoMsg", ".echo.EchoMsg", false, true, ""},
		}},
		{"Zeta_2", []protoMethod{
			{"Stream_It", ".zz.gen.Out", ".zz.gen.In", true, true, ""},
			{"Unary", ".zz.gen.Out", ".zz.gen.Out", false, false, ""},
		}},
		{"Nothing", nil},
	}}
	b := &protoFile{name: "c28/b.proto", goPkg: own, deps: []string{"c28/a.proto"}, services: []protoService{
		{"nopkg", []protoMethod{
			{"collect", ".zz.gen.In", ".zz.gen.In", true, false, ""},
		}},
	}}
	return []*protoFile{echo, a, b}
}

// extraSources are harness sources generated from the current tree.
func (eng *Engine) extraSources(dir string) (map[string][]byte, error) {
	if dir == "c44" {
		return eng.jsSources()
	}
	if dir != "c28" {
		return nil, nil
	}
	tmp, err := os.MkdirTemp("", "gosym-gen")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "protoc-gen-go-starpc")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/protoc-gen-go-starpc")
	cmd.Dir = eng.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("building the generator: %v\n%s", err, out)
	}
	files := genFiles()
	req := &pb{}
	for _, f := range files {
		if len(f.services) != 0 {
			req.str(1, f.name)
		}
	}
	for _, f := range files {
		req.msg(15, f.encode())
	}
	gen := exec.Command(bin)
	gen.Stdin = bytes.NewReader(req.b)
	var stderr bytes.Buffer
	gen.Stderr = &stderr
	out, err := gen.Output()
	if err != nil {
		return nil, &genError{"the generator fails: " + err.Error(), stderr.String()}
	}
	extra := map[string][]byte{}
	var problem string
	walkPB(out, func(f uint64, b []byte) {
		switch f {
		case 1:
			problem = string(b)
		case 15:
			var name, content string
			walkPB(b, func(f uint64, b []byte) {
				switch f {
				case 1:
					name = string(b)
				case 15:
					content = string(b)
				}
			})
			if !strings.HasSuffix(name, ".go") {
				return
			}
			extra[filepath.Join(eng.repo, "zz_verif", "c28", filepath.Base(name))] = []byte(content)
		}
	})
	if problem != "" {
		return nil, &genError{"the generator reports an error", problem}
	}
	if len(extra) != 2 {
		return nil, &genError{fmt.Sprintf("the generator writes %d files instead of 2", len(extra)), ""}
	}
	return extra, nil
}

// walkPB calls fn for each length-delimited field.
func walkPB(b []byte, fn func(f uint64, b []byte)) {
	rd := func() (v uint64) {
		for s := uint(0); len(b) > 0; s += 7 {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << s
			if c < 0x80 {
				break
			}
		}
		return
	}
	for len(b) > 0 {
		t := rd()
		switch t & 7 {
		case 0:
			rd()
		case 2:
			n := rd()
			if n > uint64(len(b)) {
				return
			}
			fn(t>>3, b[:n])
			b = b[n:]
		default:
			return
		}
	}
}

// jsSources are the files of srpc for GOOS=js that use syscall/js, on top of a model of it.
func (eng *Engine) jsSources() (map[string][]byte, error) {
	fs, err := filepath.Glob(filepath.Join(eng.repo, "srpc", "*.go"))
	if err != nil {
		return nil, err
	}
	extra := map[string][]byte{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		s := string(b)
		if !strings.Contains(s, `"syscall/js"`) {
			continue
		}
		lines := strings.SplitAfter(s, "\n")
		for i, l := range lines {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
				lines[i] = "\n"
			}
		}
		s = strings.ReplaceAll(strings.Join(lines, ""), `"syscall/js"`, fmt.Sprintf("%q", zzPath+"/js"))
		extra[filepath.Join(eng.repo, "srpc", "zz_"+strings.TrimSuffix(strings.TrimSuffix(filepath.Base(f), ".go"), "_js")+"_x.go")] = []byte(s)
	}
	model, err := os.ReadFile(filepath.Join(eng.hdir, "js", "js.go"))
	if err != nil {
		return nil, err
	}
	extra[filepath.Join(eng.repo, "zz_verif", "js", "js.go")] = model
	return extra, nil
}
