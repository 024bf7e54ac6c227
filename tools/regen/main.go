// Command regen runs the repository's protoc plugins over the API descriptors
// linked into the repository, the way the go:generate lines do with protoc.
//
//	regen PLUGIN OUTDIR    the files the plugin generates, one directory per package
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func main() {
	plugin, out := os.Args[1], os.Args[2]
	dir := filepath.Dir(traits.File_traits_light_proto.Path())
	var targets []protoreflect.FileDescriptor
	protoregistry.GlobalFiles.RangeFiles(func(f protoreflect.FileDescriptor) bool {
		if filepath.Dir(f.Path()) == dir || f == electricpb.File_pkg_trait_electricpb_memory_settings_proto {
			targets = append(targets, f)
		}
		return true
	})
	sort.Slice(targets, func(i, j int) bool { return targets[i].Path() < targets[j].Path() })
	req := &pluginpb.CodeGeneratorRequest{CompilerVersion: &pluginpb.Version{Major: proto.Int32(5), Minor: proto.Int32(28), Patch: proto.Int32(3)}}
	seen := map[string]*descriptorpb.FileDescriptorProto{}
	var add func(f protoreflect.FileDescriptor)
	add = func(f protoreflect.FileDescriptor) {
		if seen[f.Path()] != nil {
			return
		}
		p := protodesc.ToFileDescriptorProto(f)
		seen[f.Path()] = p
		for i := 0; i < f.Imports().Len(); i++ {
			add(f.Imports().Get(i).FileDescriptor)
		}
		req.ProtoFile = append(req.ProtoFile, p)
	}
	for _, f := range targets {
		add(f)
		if f.Services().Len() > 0 {
			req.FileToGenerate = append(req.FileToGenerate, f.Path())
		}
	}
	in, err := proto.Marshal(req)
	if err != nil {
		fail(err)
	}
	var stdout, stderr bytes.Buffer
	cmd := exec.Command(plugin)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = bytes.NewReader(in), &stdout, &stderr
	if err := cmd.Run(); err != nil {
		fail(fmt.Errorf("%v: %s", err, stderr.String()))
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(stdout.Bytes(), &resp); err != nil {
		fail(err)
	}
	if resp.Error != nil {
		fail(fmt.Errorf("%s", *resp.Error))
	}
	for _, f := range resp.File {
		name := f.GetName()
		if filepath.IsAbs(name) || strings.Contains(name, "..") {
			fail(fmt.Errorf("generated file %q is outside the repository", name))
		}
		p := filepath.Join(out, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fail(err)
		}
		if err := os.WriteFile(p, []byte(f.GetContent()), 0o644); err != nil {
			fail(err)
		}
		fmt.Println(name)
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}
