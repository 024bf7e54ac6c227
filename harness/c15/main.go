// C15: paged lists.
package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/smart-core-os/sc-api/go/traits"
	"github.com/smart-core-os/sc-api/go/types"
	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/internal/verif/rm"
	"github.com/smart-core-os/sc-golang/pkg/trait/electricpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/hailpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/parentpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/publicationpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/vendingpb"
	"github.com/smart-core-os/sc-golang/pkg/trait/wastepb"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/fieldmaskpb"
)

type page struct {
	items []proto.Message
	next  string
	total int32
}

// lister is one paged RPC on a server with some items.
type lister struct {
	list func(size int32, token string, mask *fieldmaskpb.FieldMask) (page, error)
	full func() []proto.Message // the listing, from the model
	del  func(id string)        // nil if not possible
}

type rpc struct {
	name   string
	key    string // field with the key
	masked bool
	empty  bool // whether an item can have the empty key
	base   int  // number of items there always are
	new    func(ids []string) lister
}

func msgs[T proto.Message](xs []T) (r []proto.Message) {
	for _, x := range xs {
		r = append(r, x)
	}
	return
}

var ctx = context.Background()

var rpcs = []rpc{
	{"electric", "id", true, false, 0, func(ids []string) lister {
		var ms []*traits.ElectricMode
		for i, id := range ids {
			ms = append(ms, &traits.ElectricMode{Id: id, Title: fmt.Sprint("t", i)})
		}
		m := electricpb.NewModel(electricpb.WithInitialMode(ms...))
		s := electricpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListModes(ctx, &traits.ListModesRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetModes()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.Modes()) }, func(id string) { m.DeleteMode(id) }}
	}},
	{"hail", "id", true, true, 0, func(ids []string) lister {
		opts := []recordOpt{hailpb.WithKeepAlive(-1)}
		for i, id := range ids {
			opts = append(opts, record(id, &traits.Hail{Id: id, Origin: &traits.Hail_Location{Name: fmt.Sprint("t", i)}}))
		}
		m := hailpb.NewModel(opts...)
		s := hailpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListHails(ctx, &traits.ListHailsRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetHails()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.ListHails()) }, func(id string) { m.DeleteHail(id) }}
	}},
	{"parent", "name", false, true, 0, func(ids []string) lister {
		var cs []recordOpt
		for i, id := range ids {
			cs = append(cs, record(id, &traits.Child{Name: id, Parent: fmt.Sprint("t", i)}))
		}
		m := parentpb.NewModel(parentpb.WithChildrenOption(cs...))
		s := parentpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListChildren(ctx, &traits.ListChildrenRequest{PageSize: n, PageToken: t})
			return page{msgs(r.GetChildren()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.ListChildren()) }, func(id string) { m.RemoveChildByName(id) }}
	}},
	{"publication", "id", true, true, 0, func(ids []string) lister {
		var cs []recordOpt
		for i, id := range ids {
			cs = append(cs, record(id, &traits.Publication{Id: id, Body: []byte(fmt.Sprint("t", i))}))
		}
		m := publicationpb.NewModel(cs...)
		s := publicationpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListPublications(ctx, &traits.ListPublicationsRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetPublications()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.ListPublications()) }, func(id string) { m.DeletePublication(id) }}
	}},
	{"consumables", "name", true, true, 0, func(ids []string) lister {
		var cs []recordOpt
		for i, id := range ids {
			cs = append(cs, record(id, &traits.Consumable{Name: id, DisplayName: fmt.Sprint("t", i)}))
		}
		m := vendingpb.NewModel(vendingpb.WithConsumablesOption(cs...))
		s := vendingpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListConsumables(ctx, &traits.ListConsumablesRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetConsumables()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.ListConsumables()) }, func(id string) { m.DeleteConsumable(id) }}
	}},
	{"inventory", "consumable", true, true, 0, func(ids []string) lister {
		var cs []recordOpt
		for i, id := range ids {
			cs = append(cs, record(id, &traits.Consumable_Stock{Consumable: id, Remaining: &traits.Consumable_Quantity{Amount: float32(i + 1)}}))
		}
		m := vendingpb.NewModel(vendingpb.WithInventoryOption(cs...))
		s := vendingpb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListInventory(ctx, &traits.ListInventoryRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetInventory()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { return msgs(m.ListInventory()) }, func(id string) { m.DeleteStock(id) }}
	}},
	{"waste", "id", false, true, 100, func(ids []string) lister {
		m := wastepb.NewModel()
		for _, id := range ids {
			if _, err := m.AddWasteRecord(&traits.WasteRecord{Id: "x" + id}); err != nil {
				panic(err)
			}
		}
		s := wastepb.NewModelServer(m)
		return lister{func(n int32, t string, k *fieldmaskpb.FieldMask) (page, error) {
			r, err := s.ListWasteRecords(ctx, &traits.ListWasteRecordsRequest{PageSize: n, PageToken: t, ReadMask: k})
			return page{msgs(r.GetWasteRecords()), r.GetNextPageToken(), r.GetTotalSize()}, err
		}, func() []proto.Message { n := m.GetWasteRecordCount(); return msgs(m.ListWasteRecords(n, n)) }, nil}
	}},
}

// ids returns n different ids of a family, in an order that is not sorted.
func ids(family string, n int) []string {
	var r []string
	switch family {
	case "numbers":
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprint(i))
		}
	case "prefixes":
		for i := 0; i < n; i++ {
			r = append(r, strings.Repeat("a", i+1))
		}
	case "words":
		// all words over an awkward alphabet, shortest first
		abc := []string{"a", "A", "/", " ", "é", "\x00", "~", "aa", "0"}
		level := []string{""}
		seen := map[string]bool{"": true}
		for len(r) < n {
			var next []string
			for _, w := range level {
				for _, c := range abc {
					if x := w + c; !seen[x] {
						seen[x] = true
						next = append(next, x)
						r = append(r, x)
					}
				}
			}
			level = next
		}
		r = r[:n]
	}
	// a fixed shuffle
	for i := range r {
		j := (i*7919 + 13) % len(r)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func key(m proto.Message, field string) string {
	return m.ProtoReflect().Get(m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(field))).String()
}

func keys(ms []proto.Message, field string) (r []string) {
	for _, m := range ms {
		r = append(r, key(m, field))
	}
	return
}

func limit(size int32) int {
	if size == 0 {
		return 50
	}
	return min(int(size), 1000)
}

// walk follows the tokens, sizes are the page sizes used in turn. It returns everything listed.
func walk(l lister, sizes func(i int) int32, token string, mask *fieldmaskpb.FieldMask, total int, each func(i int, p page)) ([]proto.Message, string) {
	var got []proto.Message
	for i := 0; ; i++ {
		n := sizes(i)
		p, err := l.list(n, token, mask)
		hl.Step(1)
		if err != nil {
			return nil, fmt.Sprintf("error: page %d of size %d: %v", i, n, err)
		}
		if len(p.items) > limit(n) {
			return nil, fmt.Sprintf("page-size: page %d has %d items, asked for %d", i, len(p.items), n)
		}
		if total >= 0 && int(p.total) != total {
			return nil, fmt.Sprintf("total: page %d says %d items, want %d", i, p.total, total)
		}
		got = append(got, p.items...)
		if each != nil {
			each(i, p)
		}
		if p.next == "" {
			return got, ""
		}
		if i > 2*max(total, 60)+4 {
			return nil, fmt.Sprintf("endless: %d pages so far", i)
		}
		token = p.next
	}
}

func same(what string, got, want []proto.Message, field string) string {
	for i := 0; i < len(got) && i < len(want); i++ {
		if !proto.Equal(got[i], want[i]) {
			return fmt.Sprintf("items: %s: item %d is %s, want %s; got %d items %q", what, i, rm.Text(got[i]), rm.Text(want[i]), len(got), cut(keys(got, field)))
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("items: %s: %d items, want %d: %q", what, len(got), len(want), cut(keys(got, field)))
	}
	return ""
}

func cut(s []string) []string { return s[:min(len(s), 80)] }

func constant(n int32) func(int) int32 { return func(int) int32 { return n } }

func masksOf(r rpc, m proto.Message) []*fieldmaskpb.FieldMask {
	ms := []*fieldmaskpb.FieldMask{nil}
	if !r.masked {
		return ms
	}
	other := ""
	fs := m.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		if string(fs.Get(i).Name()) != r.key && m.ProtoReflect().Has(fs.Get(i)) {
			other = string(fs.Get(i).Name())
		}
	}
	return append(ms, &fieldmaskpb.FieldMask{Paths: []string{r.key}}, &fieldmaskpb.FieldMask{Paths: []string{other}}, &fieldmaskpb.FieldMask{Paths: []string{other, r.key}})
}

func project(ms []proto.Message, mask *fieldmaskpb.FieldMask) []proto.Message {
	if mask == nil {
		return ms
	}
	var r []proto.Message
	for _, m := range ms {
		r = append(r, rm.Project(m, rm.MaskTree(mask.Paths)))
	}
	return r
}

func enumerate(r rpc, e *hl.E, n int, family string, sizes []int32) {
	run := func(l lister, full []proto.Message) (string, string) {
		// the listing itself has every item once
		ks := keys(full, r.key)
		sort.Strings(ks)
		for i := 1; i < len(ks); i++ {
			if ks[i] == ks[i-1] {
				return "", "listing: twice " + ks[i]
			}
		}
		if len(full) != n+r.base {
			return "", fmt.Sprintf("listing: %d items, want %d", len(full), n+r.base)
		}
		var masks []*fieldmaskpb.FieldMask
		if n > 0 {
			masks = masksOf(r, full[0])
		} else {
			masks = []*fieldmaskpb.FieldMask{nil}
		}
		if n > 100 {
			masks = masks[:1]
		}
		out := ""
		for _, size := range sizes {
			if n > 100 && size > 0 && size < 7 && !hl.Thorough() {
				continue
			}
			for _, mask := range masks {
				pages := 0
				got, f := walk(l, constant(size), "", mask, len(full), func(int, page) { pages++ })
				if f == "" {
					f = same("all pages", got, project(full, mask), r.key)
				}
				if f != "" {
					return "", fmt.Sprintf("%s (%d %s, page size %d, mask %v)", f, n, family, size, mask)
				}
				if lim := (len(full)+limit(size)-1)/limit(size) + 1; pages > lim {
					return "", fmt.Sprintf("pages: %d pages of %d items, page size %d", pages, n, size)
				}
				out += fmt.Sprint(pages, " ")
			}
		}
		return out, ""
	}
	e.Case(func() string { return fmt.Sprintf("%d %s, page sizes %v", n, family, sizes) }, func() (string, string) {
		l := r.new(ids(family, n))
		return run(l, l.full())
	})
	if r.empty && r.base == 0 && n > 0 && n <= 60 {
		e.Case(func() string { return fmt.Sprintf("%d %s and the empty id, page sizes %v", n-1, family, sizes) }, func() (string, string) {
			l := r.new(append(ids(family, n-1), ""))
			return run(l, l.full())
		})
	}
}

func statusErr(err error) bool {
	s, ok := status.FromError(err)
	return ok && s.Code() != codes.OK && s.Code() != codes.Unknown
}

func main() {
	hl.Main("C15", func() []hl.Scenario {
		var s []hl.Scenario
		for _, r := range rpcs {
			s = append(s, hl.Scenario{Name: "pages/" + r.name, Shards: 4, Enum: func(e *hl.E) {
				for n := 0; n <= 60; n++ {
					for _, f := range []string{"numbers", "prefixes", "words"} {
						m := int32(n + r.base)
						sizes := []int32{0, 1, 2, 3, 7, 49, 50, 51, 1000, 5000, math.MaxInt32}
						for _, x := range []int32{m - 1, m, m + 1, m / 2} {
							if x > 0 {
								sizes = append(sizes, x)
							}
						}
						enumerate(r, e, n, f, sizes)
					}
				}
			}})
			s = append(s, hl.Scenario{Name: "pages/large/" + r.name, Shards: 4, Enum: func(e *hl.E) {
				for _, n := range []int{99, 100, 101, 999, 1000, 1001, 1999, 2000, 2001} {
					for _, size := range []int32{0, 1, 7, 50, 333, 500, 999, 1000, 1001, 5000, math.MaxInt32} {
						enumerate(r, e, n-r.base*min(1, n/101), hl.Pick("words", "numbers"), []int32{size})
					}
				}
			}})
			s = append(s, hl.Scenario{Name: "mixed/" + r.name, Shards: 2, Enum: func(e *hl.E) { mixed(r, e) }})
			s = append(s, hl.Scenario{Name: "bad/" + r.name, Enum: func(e *hl.E) { bad(r, e) }})
			if r.base == 0 {
				s = append(s, hl.Scenario{Name: "deleted/" + r.name, Shards: 2, Enum: func(e *hl.E) { deleted(r, e) }})
			}
		}
		return s
	})
}

// mixed uses every sequence of page sizes.
func mixed(r rpc, e *hl.E) {
	top := hl.Pick(7, 10)
	sizes := []int32{1, 2, 3, 0}
	if r.base > 0 {
		sizes = []int32{33, 51, 1000, 49, 0}
	}
	for n := 0; n <= top; n++ {
		idx := make([]int, hl.Pick(5, 7))
		for {
			seq := append([]int(nil), idx...)
			e.Case(func() string { return fmt.Sprintf("%d items, page sizes %v of %v", n, seq, sizes) }, func() (string, string) {
				l := r.new(ids("words", n))
				full := l.full()
				got, f := walk(l, func(i int) int32 { return sizes[seq[i%len(seq)]] }, "", nil, len(full), nil)
				if f == "" {
					f = same("all pages", got, full, r.key)
				}
				return "", f
			})
			k := len(idx) - 1
			for ; k >= 0; k-- {
				if idx[k]++; idx[k] < len(sizes) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
}

// bad makes bad requests.
func bad(r rpc, e *hl.E) {
	for _, n := range []int{0, 1, 3, 60} {
		for _, size := range []int32{-1, -2, -3, -5, -50, -1000, math.MinInt32, math.MinInt32 + 1} {
			for _, tok := range []string{"", "valid"} {
				e.Case(func() string { return fmt.Sprintf("%d items, page size %d, token %q", n, size, tok) }, func() (string, string) {
					l := r.new(ids("words", n))
					t := ""
					if tok != "" {
						p, err := l.list(1, "", nil)
						if err != nil {
							return "", "error: " + err.Error()
						}
						t = p.next
					}
					if p, err := l.list(size, t, nil); err == nil {
						return "", fmt.Sprintf("negative: page size %d is answered with %d items", size, len(p.items))
					} else if !statusErr(err) {
						return "", fmt.Sprintf("negative: page size %d is answered with %v", size, err)
					}
					return "", ""
				})
			}
		}
		// the tokens of this server, changed
		l := r.new(ids("words", n))
		tokens := map[string]bool{}
		for _, size := range []int32{1, 2, 50} {
			walk(l, constant(size), "", nil, -1, func(_ int, p page) {
				if p.next != "" && len(tokens) < hl.Pick(3, 12) {
					tokens[p.next] = true
				}
			})
		}
		var valid []string
		for t := range tokens {
			valid = append(valid, t)
		}
		sort.Strings(valid)
		b64 := base64.StdEncoding.EncodeToString
		marsh := func(m proto.Message) string { b, _ := proto.Marshal(m); return b64(b) }
		type tok struct {
			t   string
			bad bool // certainly malformed
		}
		toks := []tok{{"!", true}, {"a", true}, {"====", true}, {"\x00", true}, {"é", true}, {" ", true}, {strings.Repeat("z", 1001), true},
			{b64([]byte{0xff}), true}, {b64([]byte("\x12\x7fabc")), true}, {b64([]byte("\x12\x02\xff\xfe")), true}, {b64([]byte{0x0b}), true}, {b64([]byte{0, 0}), true},
			{"0", true}, {"1", r.base == 0}, {"-1", true}, {"-9223372036854775808", true}, {"9223372036854775807", true}, {"99999999999999999999", true}, {fmt.Sprint(n + r.base + 1), true}, {fmt.Sprint(n + r.base + 1000), true}, {"1e3", true}, {"0x10", true}, {"1.5", true}, {"1 ", r.base > 0},
			{marsh(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: "zzzz"}}), r.base > 0},
			{marsh(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: "\x01"}}), r.base > 0},
			{marsh(&types.PageToken{PageStart: &types.PageToken_LastResourceName{LastResourceName: strings.Repeat("a", 500)}}), r.base > 0},
			{marsh(&types.PageToken{PageStart: &types.PageToken_LastOffset{LastOffset: 1}}), r.base > 0},
			{marsh(&types.PageToken{PageStart: &types.PageToken_LastOffset{LastOffset: -1}}), r.base > 0},
			{b64([]byte("\x98\x06\x01")), r.base > 0}}
		for _, v := range valid {
			for i := 0; i <= len(v); i++ {
				toks = append(toks, tok{v[:i], false}, tok{v[i:], false})
				for _, c := range "A=z+-9 \n" {
					toks = append(toks, tok{v[:i] + string(c) + v[i:], false})
					if i < len(v) {
						toks = append(toks, tok{v[:i] + string(c) + v[i+1:], false})
					}
				}
			}
			toks = append(toks, tok{v + v, false})
		}
		full := l.full()
		for _, t := range toks {
			if t.t == "" {
				continue
			}
			for _, size := range []int32{1, 0, 2, 7, 60, 1000} {
				e.Case(func() string { return fmt.Sprintf("%d items, page size %d, token %q", n, size, t.t) }, func() (string, string) {
					l := l
					if r.base == 0 {
						l = r.new(ids("words", n))
					}
					p, err := l.list(size, t.t, nil)
					if err != nil {
						if !statusErr(err) {
							return "", fmt.Sprintf("token: %q is answered with %v", t.t, err)
						}
						return "error", ""
					}
					if t.bad {
						return "", fmt.Sprintf("token: %q is answered with %d items", t.t, len(p.items))
					}
					// then it is some place in the listing
					got, f := walk(l, constant(size), t.t, nil, len(full), nil)
					if f != "" {
						return "", f
					}
					if len(got) > len(full) {
						return "", fmt.Sprintf("items: token %q lists %d of %d items", t.t, len(got), len(full))
					}
					return "ok", same("the rest for token "+t.t, got, full[len(full)-len(got):], r.key)
				})
			}
		}
	}
}

// deleted removes items while paging: the token may point at one of them.
func deleted(r rpc, e *hl.E) {
	top := hl.Pick(6, 8)
	for n := 1; n <= top; n++ {
		for _, size := range []int32{1, 2, 3} {
			for del := 0; del < 1<<n; del++ {
				// del is the set of items deleted after page 0 or 1
				for after := 0; after < 2; after++ {
					for _, empty := range []bool{false, true} {
						if empty && !r.empty {
							continue
						}
						e.Case(func() string {
							return fmt.Sprintf("%d items, page size %d, items %b deleted after page %d, empty id %v", n, size, del, after, empty)
						}, func() (string, string) {
							names := ids("words", n)
							if empty {
								names[0] = ""
							}
							l := r.new(names)
							full := l.full()
							var want []proto.Message
							seen := 0
							done := false
							got, f := walk(l, constant(size), "", nil, -1, func(i int, p page) {
								if i < after {
									seen += len(p.items)
									want = append(want, full[seen-len(p.items):seen]...)
								}
								if i == after {
									done = true
									seen += len(p.items)
									want = append(want, full[seen-len(p.items):seen]...)
									for j, m := range full {
										if del>>j&1 != 0 {
											l.del(key(m, r.key))
										} else if j >= seen {
											want = append(want, m)
										}
									}
								}
							})
							if f == "" && done {
								f = same("what is left", got, want, r.key)
							}
							return "", f
						})
					}
				}
			}
		}
	}
}
