package main

import (
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"google.golang.org/protobuf/proto"
)

type recordOpt = resource.Option

func record(id string, m proto.Message) resource.Option { return resource.WithInitialRecord(id, m) }
