package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/vrt"
	"github.com/smart-core-os/sc-golang/pkg/resource"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type (
	pub = traits.Publication
	aud = traits.Publication_Audience
)

const (
	noSignal = traits.Publication_Audience_NO_SIGNAL
	accepted = traits.Publication_Audience_ACCEPTED
	rejected = traits.Publication_Audience_REJECTED
)

// pubOp is one request.
type pubOp struct {
	kind    string // create, update, ack, delete
	p       *pub   // create, update
	id      string
	mask    []string
	version string // "", current, stale
	receipt traits.Publication_Audience_Receipt
	reason  string
	allow   bool
}

func (o pubOp) String() string {
	return fmt.Sprintf("{%s %s %v mask=%q version=%s %v %q allow=%v}", o.kind, o.id, o.p, o.mask, o.version, o.receipt, o.reason, o.allow)
}

// content is what the version stands for.
func content(p *pub) string {
	return fmt.Sprintf("%q %q %q %q", p.GetId(), p.GetBody(), p.GetMediaType(), p.GetAudience().GetName())
}

func pubState(m *publicationpb.Model) map[string]*pub {
	r := map[string]*pub{}
	for _, p := range m.ListPublications() {
		r[p.Id] = p
	}
	return r
}

// mergePub is the specification of writing src with a mask.
func mergePub(dst, src *pub, mask []string) *pub {
	if mask == nil {
		return proto.Clone(src).(*pub)
	}
	d := proto.Clone(dst).(*pub)
	for _, f := range mask {
		switch f {
		case "body":
			d.Body = src.Body
		case "media_type":
			d.MediaType = src.MediaType
		case "audience":
			if src.Audience == nil {
				d.Audience = nil
			} else {
				d.Audience = proto.Clone(src.Audience).(*aud)
			}
		case "audience.name":
			if d.Audience == nil {
				d.Audience = &aud{}
			}
			d.Audience.Name = src.GetAudience().GetName()
		case "version":
			d.Version = src.Version
		}
	}
	return d
}

// samePub compares but for an empty audience.
func samePub(a, b *pub) bool {
	a, b = proto.Clone(a).(*pub), proto.Clone(b).(*pub)
	for _, p := range []*pub{a, b} {
		if p.Audience == nil {
			p.Audience = &aud{}
		}
		if p.Audience.Receipt == 0 {
			p.Audience.Receipt = noSignal
		}
	}
	return proto.Equal(a, b)
}

type versions struct{ byContent, byVersion map[string]string }

// learn records that content has version, and reports a contradiction.
func (v versions) learn(p *pub) string {
	c := content(p)
	if p.Version == "" {
		return "no version for " + c
	}
	if o, ok := v.byContent[c]; ok && o != p.Version {
		return fmt.Sprintf("%s has versions %s and %s", c, o, p.Version)
	}
	if o, ok := v.byVersion[p.Version]; ok && o != c {
		return fmt.Sprintf("%s and %s share version %s", c, o, p.Version)
	}
	v.byContent[c], v.byVersion[p.Version] = p.Version, c
	return ""
}

func newVersions() versions { return versions{map[string]string{}, map[string]string{}} }

func pubSeq(ops []pubOp, seen versions) (string, string) {
	c := &clk{epoch}
	m := publicationpb.NewModel(resource.WithClock(c))
	srv := publicationpb.NewModelServer(m)
	state := map[string]*pub{}
	old := map[string]string{} // a previous version by id
	ctx := context.Background()
	var b strings.Builder
	for i, o := range ops {
		c.now = c.now.Add(time.Minute)
		now := timestamppb.New(c.now)
		cur := state[o.id]
		version := ""
		switch o.version {
		case "current":
			version = cur.GetVersion()
			if version == "" {
				version = "v"
			}
		case "stale":
			if version = old[o.id]; version == "" || version == cur.GetVersion() {
				version = "stale"
			}
		}
		var got, want *pub
		var err error
		wantErr := false
		unchangedOK := false
		minted := false
		switch o.kind {
		case "create":
			p := proto.Clone(o.p).(*pub)
			got, err = srv.CreatePublication(ctx, &traits.CreatePublicationRequest{Name: "n", Publication: p})
			if o.p.Id != "" && cur != nil {
				wantErr = true
				break
			}
			want = proto.Clone(o.p).(*pub)
			if want.Id == "" {
				want.Id = got.GetId()
				if want.Id == "" || state[want.Id] != nil {
					return "", fmt.Sprintf("publication-id: %v created %v with %v present", o, got, state)
				}
			}
			minted = true
		case "update":
			p := proto.Clone(o.p).(*pub)
			p.Id = o.id
			req := &traits.UpdatePublicationRequest{Name: "n", Publication: p, Version: version}
			if o.mask != nil {
				req.UpdateMask = &fieldmaskpb.FieldMask{Paths: o.mask}
			}
			got, err = srv.UpdatePublication(ctx, req)
			if cur == nil || o.version == "stale" {
				wantErr = true
				break
			}
			src := proto.Clone(o.p).(*pub)
			src.Id = o.id
			want = mergePub(cur, src, o.mask)
			minted = true
		case "ack":
			got, err = srv.AcknowledgePublication(ctx, &traits.AcknowledgePublicationRequest{Name: "n", Id: o.id, Version: version, Receipt: o.receipt, ReceiptRejectedReason: o.reason, AllowAcknowledged: o.allow})
			if cur == nil || o.version != "current" {
				wantErr = true
				break
			}
			if r := cur.GetAudience().GetReceipt(); r == accepted || r == rejected {
				if o.allow {
					want = cur
					unchangedOK = true
				} else {
					wantErr = true
				}
				break
			}
			want = proto.Clone(cur).(*pub)
			if want.Audience == nil {
				want.Audience = &aud{}
			}
			want.Audience.Receipt = o.receipt
			if o.receipt == 0 {
				want.Audience.Receipt = accepted
			}
			want.Audience.ReceiptRejectedReason = o.reason
			want.Audience.ReceiptTime = now
		case "delete":
			got, err = srv.DeletePublication(ctx, &traits.DeletePublicationRequest{Name: "n", Id: o.id, Version: version, AllowMissing: o.allow})
			if cur == nil && o.allow {
				if err != nil {
					return "", fmt.Sprintf("publication-delete: step %d %v: %v", i, o, err)
				}
			} else if cur == nil || o.version == "stale" {
				wantErr = true
			} else if err == nil {
				delete(state, o.id)
				if !samePub(got, cur) {
					return "", fmt.Sprintf("publication-delete: step %d %v returned %v, was %v", i, o, got, cur)
				}
			}
		}
		hl.Step(1)
		after := pubState(m)
		fail := func(why string) (string, string) {
			return "", fmt.Sprintf("publication: step %d of %v on %v gave %v, %v; now %v: %s", i, ops, cur, got, err, after, why)
		}
		if (err != nil) != wantErr {
			return fail(fmt.Sprintf("error expected: %v", wantErr))
		}
		if err == nil && want != nil {
			if minted {
				if want.Audience != nil {
					want.Audience.Receipt, want.Audience.ReceiptRejectedReason, want.Audience.ReceiptTime = noSignal, "", nil
				}
				want.PublishTime = now
				want.Version = got.GetVersion()
				if why := seen.learn(got); why != "" {
					return fail(why)
				}
				if cur != nil && cur.Version != want.Version {
					old[want.Id] = cur.Version
				}
			}
			if !samePub(got, want) {
				return fail(fmt.Sprintf("want %v", want))
			}
			_ = unchangedOK
			state[want.Id] = want
		}
		if len(after) != len(state) {
			return fail(fmt.Sprintf("want %v", state))
		}
		for id, w := range state {
			if after[id] == nil || !samePub(after[id], w) {
				return fail(fmt.Sprintf("want %v", state))
			}
			g, err := srv.GetPublication(ctx, &traits.GetPublicationRequest{Id: id})
			if err != nil || !proto.Equal(g, after[id]) {
				return fail(fmt.Sprintf("get gives %v, %v", g, err))
			}
		}
		fmt.Fprint(&b, err != nil, " ")
	}
	return b.String(), ""
}

func publication(s *scenarios) {
	a1 := &aud{Name: "a1"}
	full := &pub{Id: "x", Body: []byte("one"), MediaType: "text", Audience: a1}
	setBy := &aud{Name: "a2", Receipt: accepted, ReceiptRejectedReason: "because", ReceiptTime: ts(0)}
	ops := []pubOp{
		{kind: "create", id: "x", p: full},
		{kind: "create", id: "x", p: &pub{Id: "x", Version: "mine", PublishTime: ts(0), Audience: setBy}},
		{kind: "create", p: &pub{Body: []byte("gen")}},
		{kind: "update", id: "x", p: &pub{Body: []byte("two"), MediaType: "text", Audience: a1}, version: "current"},
		{kind: "update", id: "x", p: full},
		{kind: "update", id: "x", p: &pub{Body: []byte("two"), Audience: setBy}, mask: []string{"body"}},
		{kind: "update", id: "x", p: &pub{Audience: setBy}, mask: []string{"audience"}, version: "current"},
		{kind: "update", id: "x", p: &pub{Audience: setBy, MediaType: "pic"}, mask: []string{"audience.name", "media_type"}},
		{kind: "update", id: "x", p: &pub{Version: "mine"}, mask: []string{"version"}},
		{kind: "update", id: "x", p: &pub{Body: []byte("three")}, version: "stale"},
		{kind: "update", id: "x", p: &pub{Body: []byte("bare")}},
		{kind: "ack", id: "x", version: "current"},
		{kind: "ack", id: "x", version: "current", receipt: accepted, allow: true},
		{kind: "ack", id: "x", version: "current", receipt: rejected, reason: "no"},
		{kind: "ack", id: "x", version: "stale", receipt: accepted, allow: true},
		{kind: "delete", id: "x", version: "current"},
		{kind: "delete", id: "x", version: "stale"},
		{kind: "delete", id: "x", allow: true},
	}
	s.enum("publication/seq", 8, func(e *hl.E) {
		words(len(ops), hl.Pick(4, 5), func(w []int) bool {
			p := append([]pubOp{ops[0]}, pick(ops, w)...)
			return e.Case(func() string { return fmt.Sprint(p) }, func() (string, string) { return pubSeq(p, newVersions()) })
		})
		words(len(ops), hl.Pick(2, 3), func(w []int) bool {
			p := pick(ops, w)
			return e.Case(func() string { return fmt.Sprint(p) }, func() (string, string) { return pubSeq(p, newVersions()) })
		})
	})
	s.enum("publication/versions", 1, func(e *hl.E) {
		// different content has different versions, by pairs differing in one or two parts
		texts := []string{"", "x", "xx", "v1", "x1", "1", "1x", "\x00", "1:x"}
		var all []*pub
		for _, id := range []string{"x", "xx", "x1", "1"} {
			for _, body := range texts {
				for _, media := range texts {
					for _, an := range texts {
						p := &pub{Id: id, Body: []byte(body), MediaType: media}
						if an != "" {
							p.Audience = &aud{Name: an}
						}
						all = append(all, p)
					}
				}
			}
		}
		for from := 0; from < 2; from++ {
			e.Case(func() string { return fmt.Sprint(len(all), " contents, created or updated: ", from) }, func() (string, string) {
				seen := newVersions()
				for _, p := range all {
					srv := publicationpb.NewModelServer(publicationpb.NewModel())
					first := proto.Clone(p).(*pub)
					if from == 1 {
						first.Body, first.MediaType = []byte("first"), "none"
					}
					got, err := srv.CreatePublication(context.Background(), &traits.CreatePublicationRequest{Publication: first})
					if err == nil && from == 1 {
						got, err = srv.UpdatePublication(context.Background(), &traits.UpdatePublicationRequest{Publication: proto.Clone(p).(*pub)})
					}
					if err != nil {
						return "", "publication-version: " + err.Error()
					}
					hl.Step(1)
					if why := seen.learn(got); why != "" {
						return "", "publication-version: " + why
					}
				}
				return "", ""
			})
		}
	})
	s.enum("publication/initial", 1, func(e *hl.E) {
		for bits := 0; bits < 8; bits++ {
			e.Case(func() string { return fmt.Sprint(bits) }, func() (string, string) {
				var opts []resource.Option
				want := map[string]*pub{}
				for k := 0; k < 3; k++ {
					if bits>>k&1 == 1 {
						p := &pub{Id: fmt.Sprint("p", k), Body: []byte("b"), Version: "given", Audience: a1, PublishTime: ts(0)}
						want[p.Id] = p
						opts = append(opts, publicationpb.WithInitialPublication(proto.Clone(p).(*pub)))
					}
				}
				got := pubState(publicationpb.NewModel(opts...))
				if len(got) != len(want) {
					return "", fmt.Sprintf("publication-initial: %v, configured %v", got, want)
				}
				for k := range want {
					if !proto.Equal(got[k], want[k]) {
						return "", fmt.Sprintf("publication-initial: %v, configured %v", got, want)
					}
				}
				return "", ""
			})
		}
	})
	// requests racing on one publication
	race := func(ops ...pubOp) vrt.Body {
		return func() (string, string) {
			c := &clk{epoch}
			setup := func() (*publicationpb.Model, *publicationpb.ModelServer, *pub) {
				m := publicationpb.NewModel(resource.WithClock(c))
				srv := publicationpb.NewModelServer(m)
				p, err := srv.CreatePublication(context.Background(), &traits.CreatePublicationRequest{Publication: proto.Clone(full).(*pub)})
				if err != nil {
					panic(err)
				}
				return m, srv, p
			}
			do := func(srv *publicationpb.ModelServer, o pubOp, version string) error {
				var err error
				if o.kind == "ack" {
					_, err = srv.AcknowledgePublication(context.Background(), &traits.AcknowledgePublicationRequest{Id: "x", Version: version, Receipt: o.receipt, ReceiptRejectedReason: o.reason, AllowAcknowledged: o.allow})
				} else {
					if o.version == "" {
						version = ""
					}
					_, err = srv.UpdatePublication(context.Background(), &traits.UpdatePublicationRequest{Version: version, Publication: proto.Clone(o.p).(*pub)})
				}
				return err
			}
			m, srv, p := setup()
			errs := make([]error, len(ops))
			var fs []func()
			for i, o := range ops {
				fs = append(fs, func() { errs[i] = do(srv, o, p.Version) })
			}
			par(fs...)
			now, _ := m.GetPublication("x")
			// some order explains the results; those losing a race did nothing
			var todo []int
			for i := range ops {
				if !strings.Contains(fmt.Sprint(errs[i]), "concurrent update") {
					todo = append(todo, i)
				}
			}
			if !orders(todo, func(l []int) bool {
				rm, rs, p := setup()
				for _, i := range l {
					if err := do(rs, ops[i], p.Version); (err == nil) != (errs[i] == nil) {
						return false
					}
				}
				r, _ := rm.GetPublication("x")
				return proto.Equal(r, now)
			}) {
				return "", fmt.Sprintf("publication-race: %v gave %v and %v", ops, errs, now)
			}
			return fmt.Sprint(errs), ""
		}
	}
	all := []pubOp{
		{kind: "ack", receipt: accepted},
		{kind: "ack", receipt: rejected, reason: "no"},
		{kind: "ack", receipt: accepted, allow: true},
		{kind: "update", version: "current", p: &pub{Id: "x", Body: []byte("two"), Audience: a1}},
		{kind: "update", p: &pub{Id: "x", Body: []byte("three"), Audience: a1}},
	}
	for i, x := range all {
		for j, y := range all[:i+1] {
			s.conc(fmt.Sprintf("publication/race/%d-%d", i, j), 2, 4, race(x, y))
			for k, z := range all[:j+1] {
				if i > 2 || k < 2 {
					s.conc(fmt.Sprintf("publication/race/%d-%d-%d", i, j, k), 1, 2, race(x, y, z))
				}
			}
		}
	}
}
