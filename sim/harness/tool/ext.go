//go:build simruntime

package tool

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"

	"verif.local/sim/prog"
	"verif.local/sim/simexec"
	"verif.local/sim/simrt"
)

// extCall is one execution of an installed protoc plugin.
type extCall struct {
	name string
	req  *pluginpb.CodeGeneratorRequest
	bad  string // what is wrong with the request
}

// extNames are the plugins installed in a simulated system.
var extNames = []string{"", "protoc-gen-ext", "protoc-gen-go"}

// extFailure is what a failing plugin says.
const extFailure = "ext does not like it"

// installExt installs an external protoc plugin. kind decides how its next
// execution goes wrong.
func installExt(name string, kind func() (string, time.Duration), seen func(extCall)) {
	if name == "" {
		return
	}
	run := func(p *simexec.Process) int {
		k, d := "", time.Duration(0)
		if kind != nil {
			k, d = kind()
		}
		x := extCall{name: name}
		var resp *pluginpb.CodeGeneratorResponse
		if k == "early" { // without reading its input
			fmt.Fprint(p.Stderr, extFailure)
			return 1
		}
		in, err := io.ReadAll(p.Stdin)
		if err != nil {
			x.bad = "its input cannot be read: " + err.Error()
		} else {
			x.req, resp, x.bad = extAnswer(name, in)
		}
		simrt.Event("%s is executed for %v", name, x.req.GetFileToGenerate())
		if seen != nil {
			seen(x)
		}
		if x.bad != "" {
			fmt.Fprint(p.Stderr, x.bad)
			return 1
		}
		if d > 0 {
			p.Sleep(d)
		}
		out, err := proto.MarshalOptions{Deterministic: true}.Marshal(resp)
		if err != nil {
			panic(err)
		}
		switch k {
		case "exit":
			fmt.Fprint(p.Stderr, extFailure)
			return 3
		case "exit late": // everything has been written
			p.Stdout.Write(out)
			fmt.Fprint(p.Stderr, extFailure)
			return 1
		case "killed":
			p.Stdout.Write(out[:len(out)/2])
			p.Abort()
		case "garbage":
			out = append(bytes.Repeat([]byte{0xff}, 12), out...)
		case "error":
			out, _ = proto.Marshal(&pluginpb.CodeGeneratorResponse{Error: proto.String(extFailure)})
		}
		for len(out) > 0 {
			n := min(len(out), 512)
			p.Stdout.Write(out[:n])
			out = out[n:]
		}
		return 0
	}
	simexec.Installed = func(n string) simexec.Program {
		if n == name {
			return run
		}
		return nil
	}
}

// extAnswer is what a plugin makes of a request, and what is wrong with the request.
func extAnswer(name string, in []byte) (*pluginpb.CodeGeneratorRequest, *pluginpb.CodeGeneratorResponse, string) {
	req, resp := &pluginpb.CodeGeneratorRequest{}, &pluginpb.CodeGeneratorResponse{}
	if len(in) == 0 {
		return req, nil, "the request is empty"
	}
	if err := proto.Unmarshal(in, req); err != nil {
		return req, nil, "malformed request: " + err.Error()
	}
	got := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range req.GetProtoFile() {
		if got[f.GetName()] != nil {
			return req, nil, f.GetName() + " is twice in the request"
		}
		for _, d := range f.GetDependency() {
			if got[d] == nil {
				return req, nil, fmt.Sprintf("%s is not before %s, which imports it", d, f.GetName())
			}
		}
		got[f.GetName()] = f
	}
	if len(req.GetFileToGenerate()) == 0 {
		return req, nil, "nothing to generate"
	}
	for _, n := range req.GetFileToGenerate() {
		if got[n] == nil {
			return req, nil, n + " is to be generated but not in the request"
		}
		var b strings.Builder
		fmt.Fprintf(&b, "parameter %q\n", req.GetParameter())
		for _, f := range req.GetProtoFile() {
			raw, err := proto.MarshalOptions{Deterministic: true}.Marshal(f)
			if err != nil {
				return req, nil, err.Error()
			}
			fmt.Fprintf(&b, "%s %x\n", f.GetName(), prog.Hash(string(raw)))
		}
		resp.File = append(resp.File, &pluginpb.CodeGeneratorResponse_File{
			Name:    proto.String(strings.TrimSuffix(n, ".proto") + "." + name + ".txt"),
			Content: proto.String(b.String()),
		})
	}
	return req, resp, ""
}
