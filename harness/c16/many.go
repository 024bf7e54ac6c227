package main

import (
	"fmt"

	"github.com/smart-core-os/sc-golang/internal/verif/hl"
	"github.com/smart-core-os/sc-golang/pkg/cmp"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"

	"github.com/smart-core-os/sc-golang/internal/testproto"
)

type nestedMsg = testproto.TestAllTypes_NestedMessage

// bulk are messages of n elements of which the i-th can be different, absent or an extra.
var bulk = []struct {
	name string
	f    func(n, i int, how string) *all
}{
	{"int list", func(n, i int, how string) *all {
		m := &all{}
		for j := 0; j < n; j++ {
			switch {
			case j != i || how == "":
				m.RepeatedInt32 = append(m.RepeatedInt32, int32(j))
			case how == "different":
				m.RepeatedInt32 = append(m.RepeatedInt32, -1)
			case how == "extra":
				m.RepeatedInt32 = append(m.RepeatedInt32, int32(j), int32(j))
			}
		}
		return m
	}},
	{"string list", func(n, i int, how string) *all {
		m := &all{}
		for j := 0; j < n; j++ {
			switch {
			case j != i || how == "":
				m.RepeatedString = append(m.RepeatedString, fmt.Sprint("x", j))
			case how == "different":
				m.RepeatedString = append(m.RepeatedString, fmt.Sprint("y", j))
			case how == "extra":
				m.RepeatedString = append(m.RepeatedString, fmt.Sprint("x", j), "")
			}
		}
		return m
	}},
	{"double list", func(n, i int, how string) *all {
		m := &all{}
		for j := 0; j < n; j++ {
			switch {
			case j != i || how == "":
				m.RepeatedDouble = append(m.RepeatedDouble, float64(j))
			case how == "different":
				m.RepeatedDouble = append(m.RepeatedDouble, float64(j)+0.5)
			case how == "extra":
				m.RepeatedDouble = append(m.RepeatedDouble, float64(j), 0)
			}
		}
		return m
	}},
	{"message list", func(n, i int, how string) *all {
		m := &all{}
		for j := 0; j < n; j++ {
			x := &nestedMsg{A: int32(j), Corecursive: &all{DefaultString: "s"}}
			switch {
			case j != i || how == "":
			case how == "different":
				x.Corecursive.DefaultString = "t"
			case how == "absent":
				continue
			case how == "extra":
				m.RepeatedNestedMessage = append(m.RepeatedNestedMessage, &nestedMsg{})
			}
			m.RepeatedNestedMessage = append(m.RepeatedNestedMessage, x)
		}
		return m
	}},
	{"string map", func(n, i int, how string) *all {
		m := &all{MapStringString: map[string]string{}}
		for j := 0; j < n; j++ {
			k := fmt.Sprint("k", j)
			switch {
			case j != i || how == "":
				m.MapStringString[k] = "v"
			case how == "different":
				m.MapStringString[k] = "w"
			case how == "extra":
				m.MapStringString[k] = "v"
				m.MapStringString["extra"] = ""
			}
		}
		return m
	}},
	{"message map", func(n, i int, how string) *all {
		m := &all{MapStringNestedMessage: map[string]*nestedMsg{}}
		for j := 0; j < n; j++ {
			k := fmt.Sprint("k", j)
			x := &nestedMsg{Corecursive: &all{DefaultInt32: int32(j)}}
			switch {
			case j != i || how == "":
			case how == "different":
				x.Corecursive.DefaultInt32 = -1
			case how == "absent":
				continue
			case how == "extra":
				m.MapStringNestedMessage["extra"] = &nestedMsg{}
			}
			m.MapStringNestedMessage[k] = x
		}
		return m
	}},
	{"bytes", func(n, i int, how string) *all {
		m := &all{DefaultBytes: make([]byte, n, n+1)}
		switch how {
		case "different":
			m.DefaultBytes[i] = 1
		case "absent":
			m.DefaultBytes = m.DefaultBytes[1:]
		case "extra":
			m.DefaultBytes = append(m.DefaultBytes, 0)
		}
		return m
	}},
	{"text", func(n, i int, how string) *all {
		b := make([]byte, n, n+1)
		for j := range b {
			b[j] = 'a'
		}
		switch how {
		case "different":
			b[i] = 'b'
		case "absent":
			b = b[1:]
		case "extra":
			b = append(b, 'a')
		}
		return &all{DefaultString: string(b)}
	}},
	{"nesting", func(n, i int, how string) *all {
		top := &all{}
		m := top
		for j := 0; j < n; j++ {
			m.DefaultString = "s"
			if j == i {
				switch how {
				case "different":
					m.DefaultString = "t"
				case "absent":
					return top
				case "extra":
					m.DefaultInt32 = 1
				}
			}
			next := &all{}
			m.DefaultNestedMessage = &nestedMsg{Corecursive: next}
			m = next
		}
		return top
	}},
	{"unknown fields", func(n, i int, how string) *all {
		var b []byte
		for j := 0; j < n; j++ {
			x := uint64(j)
			if j == i {
				switch how {
				case "different":
					x = 1 << 40
				case "absent":
					continue
				case "extra":
					b = protowire.AppendVarint(protowire.AppendTag(b, protowire.Number(90000+j), protowire.VarintType), x)
				}
			}
			b = protowire.AppendVarint(protowire.AppendTag(b, protowire.Number(90000+j), protowire.VarintType), x)
		}
		m := &all{}
		m.ProtoReflect().SetUnknown(b)
		return m
	}},
}

// manyElements compares messages of many elements that differ in one.
func manyElements(s *[]hl.Scenario) {
	eq, tol := cmp.Equal(), cmp.Equal(cmp.FloatValueApprox(0, 0.25))
	for _, b := range bulk {
		*s = append(*s, hl.Scenario{Name: "many/" + b.name, Enum: func(e *hl.E) {
			for _, n := range hl.Pick([]int{1, 2, 3, 5, 8, 9, 16, 17, 33, 65, 129, 257}, []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 513}) {
				if !e.Case(func() string { return fmt.Sprintf("%d elements", n) }, func() (string, string) {
					for i := 0; i < n; i++ {
						if n > 40 && i%7 != 0 && i != n-1 && !hl.Thorough() {
							continue
						}
						for _, how := range []string{"", "different", "absent", "extra"} {
							for _, how2 := range []string{"", "different"} {
								if how2 != "" && i%3 != 0 {
									continue
								}
								x, y := b.f(n, i, how), b.f(n, n/2, how2)
								want := proto.Equal(x, y)
								if how == "" && how2 == "" != want {
									return "", "harness: not as expected"
								}
								if f := verdict("default", eq, x, y, want); f != "" {
									return "", f
								}
								if f := verdict("tolerance", tol, x, y, want); f != "" {
									return "", f
								}
							}
						}
					}
					return "", ""
				}) {
					return
				}
			}
		}})
	}
	for _, q := range equivs() {
		*s = append(*s, hl.Scenario{Name: "long/" + q.name, Shards: 4, Enum: func(e *hl.E) {
			// histories that repeat what happens
			for period := 1; period <= hl.Pick(2, 3); period++ {
				for _, n := range hl.Pick([]int{40}, []int{40, 150}) {
					long := func(x []int) (r []int) {
						for len(r) < n {
							r = append(r, x...)
						}
						return
					}
					if !seqs(len(q.vals), period, func(x []int) bool {
						x = long(x)
						return e.Case(func() string { return fmt.Sprintf("%d writes of values %v ...", len(x), x[:period]) }, func() (string, string) { return valueSeq(q, q.vals[0], x) })
					}) {
						return
					}
					for _, include := range []bool{false, true} {
						if !seqs(len(q.vals)+3, period, func(x []int) bool {
							x = long(x)
							return e.Case(func() string { return fmt.Sprintf("%d operations %v ... include=%v", len(x), x[:period], include) }, func() (string, string) { return collSeq(q, include, x) })
						}) {
							return
						}
					}
				}
			}
		}})
	}
}
