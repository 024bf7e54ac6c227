// C12: routers deliver each request to the client registered under its name.
package main

import "github.com/smart-core-os/sc-golang/internal/verif/hl"

func main() {
	hl.Main("C12", func() []hl.Scenario {
		r := []hl.Scenario{
			{Name: "surface", Enum: surface},
			{Name: "route/wrappers", Enum: wrappers},
			{Name: "route/unary", Enum: unaries, Shards: 8},
			{Name: "route/stream", Enum: streams, Shards: 16},
			{Name: "registry", Enum: registry, Shards: 16},
			{Name: "many", Enum: manyNames, Shards: 8},
			{Name: "route/registry", Enum: typedRegistry, Shards: 16},
			{Name: "names/unary", Enum: namesUnary, Shards: 4},
			{Name: "names/stream", Enum: namesStream, Shards: 4},
			{Name: "stack/local", Enum: stacks(false), Shards: 16},
			{Name: "stack/remote", Enum: stacks(true), Shards: 16},
		}
		return append(r, concurrents()...)
	})
}
