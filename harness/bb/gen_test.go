package bb

import (
	"strings"

	"kmverif/ctl"
	"kmverif/wire"

	"pgregory.net/rapid"
)

// Names that could be confused with one another, and unusual ones.
var topicPool = []string{"t", "t1", "t11", "1t", "T", "a", "a.b", "a_b-c", "t-1", "topic", "topic2", "ünï-ß", "x y", "a/b",
	strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("q", 249), "__consumer_offsets", "t ", " t", "A.B", "a_b", "u\u0308n\u0131\u0308-ß", "t\x00", "t\n"}
var partPool = []int32{0, 1, 2, 3, 4, 5, 7, 10, 11, 127, 128, 255, 256, 257, 65535, 65536, 2147483647}
var groupPool = []string{"g", "g1", "g11", "G", "g ", " g", "", "g/t", "t", "grüppe", "g 1", strings.Repeat("g", 128), strings.Repeat("G", 1000)}

func genSlots(min, max int) *rapid.Generator[[]Slot] {
	return rapid.Custom(func(t *rapid.T) []Slot {
		nt := rapid.IntRange(1, 4).Draw(t, "topics")
		names := rapid.SliceOfNDistinct(rapid.SampledFrom(topicPool), nt, nt, rapid.ID[string]).Draw(t, "names")
		small := rapid.IntRange(0, 2).Draw(t, "partition pool") > 0
		return rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) Slot {
			s := Slot{Topic: names[rapid.IntRange(0, nt-1).Draw(t, "t")]}
			if small {
				s.Part = int32(rapid.IntRange(0, 5).Draw(t, "p"))
			} else {
				s.Part = rapid.SampledFrom(partPool).Draw(t, "p")
			}
			return s
		}), min, max, rapid.ID[Slot]).Draw(t, "slots")
	})
}

var sizeEdges = []int{0, 1, 2, 7, 8, 63, 64, 93, 94, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 4061, 4062, 4095, 4096, 4097, 8191, 8192, 8193,
	16383, 16384, 32766, 32767, 32768, 65535, 65536, 65537}

// genBlob: null, empty, short, edges, up to max bytes.
func genBlob(max int) *rapid.Generator[wire.Blob] {
	return rapid.Custom(func(t *rapid.T) wire.Blob {
		b := wire.Blob{}
		switch k := rapid.IntRange(0, 19).Draw(t, "kind"); {
		case k < 2:
			return wire.Blob{N: -1}
		case k < 4:
			return wire.Blob{N: 0}
		case k < 14:
			b.N = rapid.IntRange(1, 24).Draw(t, "n")
		case k < 17:
			b.N = rapid.IntRange(0, 600).Draw(t, "n")
		case k < 19:
			b.N = rapid.SampledFrom(sizeEdges).Draw(t, "n")
		default:
			b.N = rapid.IntRange(0, max).Draw(t, "n")
		}
		if b.N > max {
			b.N = b.N % (max + 1)
		}
		b.Seed = uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))
		return b
	})
}

var tsEdges = []int64{0, 1, -1, -2, 999, 1000, 1001, 1700000000000, 1700000000001, 1<<31 - 1, 1 << 31, 1 << 32, 1<<40 + 7, -62135596800000, 253402300799999, -1000, -999}

func genRec(max int) *rapid.Generator[ctl.Rec] {
	return rapid.Custom(func(t *rapid.T) ctl.Rec {
		keys := max / 4
		if rapid.IntRange(0, 31).Draw(t, "long key") == 23 {
			keys = max
		}
		r := ctl.Rec{Key: genBlob(keys).Draw(t, "key"), Value: genBlob(max).Draw(t, "value")}
		if rapid.IntRange(0, 2).Draw(t, "form") > 0 {
			r.Ext = true
			genTs(t, &r)
			r.Headers = rapid.IntRange(0, 3).Draw(t, "headers")
			if rapid.IntRange(0, 5).Draw(t, "zoned") == 0 {
				r.Zone = rapid.IntRange(-720, 840).Draw(t, "zone")
			}
		}
		return r
	})
}

func genTs(t *rapid.T, r *ctl.Rec) {
	switch rapid.IntRange(0, 3).Draw(t, "ts kind") {
	case 0:
		r.Ms = rapid.SampledFrom(tsEdges).Draw(t, "ts")
	case 1:
		r.Ms = int64(rapid.IntRange(0, 40).Draw(t, "ts")) // collisions
	case 2:
		r.Ms = 1700000000000 + int64(rapid.IntRange(-50, 50).Draw(t, "ts"))
	default:
		r.Ms = rapid.Int64Range(-62135596800000, 253402300799999).Draw(t, "ts")
	}
	if rapid.Bool().Draw(t, "sub-ms") {
		r.Ns = int32(rapid.SampledFrom([]int{1, 499999, 500000, 500001, 999999}).Draw(t, "ns"))
	}
}

// genRecs: few rich records or many small ones.
func genRecs(max int) *rapid.Generator[[]ctl.Rec] {
	return rapid.Custom(func(t *rapid.T) []ctl.Rec {
		k := rapid.IntRange(0, 19).Draw(t, "batch")
		switch {
		case k == 19: // many
			n := rapid.IntRange(20, 400).Draw(t, "n")
			seed := uint32(rapid.IntRange(0, 1<<16).Draw(t, "seed"))
			ext := rapid.Bool().Draw(t, "ext")
			recs := make([]ctl.Rec, n)
			for i := range recs {
				recs[i] = ctl.Rec{Key: wire.Blob{N: i % 5, Seed: seed + uint32(i)}, Value: wire.Blob{N: (i*7 + int(seed)) % 40, Seed: seed + uint32(2*i)}, Ext: ext, Ms: int64(seed) + int64(i/3)}
				if !ext {
					recs[i].Ms = 0
				}
			}
			return recs
		default:
			recs := rapid.SliceOfN(genRec(max), 1, 6).Draw(t, "recs")
			if k >= 16 { // the same again
				r := recs[len(recs)-1]
				for n := rapid.IntRange(1, 3).Draw(t, "again"); n > 0; n-- {
					recs = append(recs, r)
				}
			}
			return recs
		}
	})
}

var bulkEdges = []int{255, 256, 257, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 10001, 16385, 32769}

// genBulk: how many records to post at once to make a long log.
func genBulk(t *rapid.T) int {
	if rapid.IntRange(0, 31).Draw(t, "past 16 bits") == 29 {
		return rapid.IntRange(65530, 66500).Draw(t, "n")
	}
	switch rapid.IntRange(0, 3).Draw(t, "bulk") {
	case 0:
		return rapid.SampledFrom(bulkEdges).Draw(t, "n")
	case 1:
		return rapid.IntRange(1000, 20000).Draw(t, "n")
	default:
		return rapid.IntRange(300, 3000).Draw(t, "n")
	}
}

// genHeavy: how many records of what size, some MB together.
func genHeavy(t *rapid.T, max int) (n, size int) {
	size = rapid.SampledFrom([]int{1100, 5000, 50000, 300000, 1000000, 1049000, 2200000, 5000000, 17000000}).Draw(t, "size")
	total := rapid.IntRange(1<<20, max).Draw(t, "total")
	return (total + size - 1) / size, size
}

// bulkRecs are n records (small ones, or of about the given size) that differ
// from their neighbours, with times that go up and down.
func bulkRecs(n, size int, seed uint32) []ctl.Rec {
	recs := make([]ctl.Rec, n)
	for i := range recs {
		recs[i] = ctl.Rec{Key: wire.Blob{N: i%4 - 1, Seed: seed + uint32(i)}, Value: wire.Blob{N: size + 4 + i%9, Seed: seed + uint32(3*i)}, Ext: true, Ms: int64(seed) + int64(i/2) - int64(i%7)*3}
	}
	return recs
}

// OffSpec is an offset relative to a log.
type OffSpec struct {
	End bool  `json:",omitempty"` // relative to the end
	Abs bool  `json:",omitempty"`
	D   int64 `json:",omitempty"`
}

// resolve against a log of n records (never negative unless Abs).
func (o OffSpec) resolve(n int) int64 {
	if o.Abs {
		return o.D
	}
	v := o.D
	if o.End {
		v = int64(n) - o.D
	} else if v > int64(n) {
		v = v % int64(n+1)
	}
	if v < 0 {
		v = 0
	}
	return v
}

// genOff draws offsets inside the log mostly, at and past its end sometimes.
func genOff() *rapid.Generator[OffSpec] {
	return rapid.Custom(func(t *rapid.T) OffSpec {
		switch k := rapid.IntRange(0, 9).Draw(t, "off kind"); {
		case k < 5:
			return OffSpec{D: int64(rapid.IntRange(0, 8).Draw(t, "d"))}
		case k < 6:
			return OffSpec{D: int64(rapid.IntRange(0, 500).Draw(t, "d"))}
		case k < 7:
			return OffSpec{D: int64(rapid.IntRange(0, 40000).Draw(t, "d"))}
		default:
			return OffSpec{End: true, D: int64(rapid.IntRange(0, 5).Draw(t, "d"))}
		}
	})
}

// MaxSpec is a byte limit, relative to the sizes of the next records.
type MaxSpec struct {
	Recs  int   `json:",omitempty"` // the size of this many records ...
	Delta int32 `json:",omitempty"` // ... plus this
	Abs   bool  `json:",omitempty"` // Delta alone
}

func (m MaxSpec) resolve(log []MRec, from int64) int32 {
	if m.Abs {
		return m.Delta
	}
	sum := int64(0)
	for i := 0; i < m.Recs && from >= 0 && from+int64(i) < int64(len(log)); i++ {
		sum += int64(log[from+int64(i)].size())
	}
	sum += int64(m.Delta)
	if sum > 1<<31-1 {
		sum = 1<<31 - 1
	}
	return int32(sum)
}

var bigMax = MaxSpec{Abs: true, Delta: 64 << 20}

func genMax() *rapid.Generator[MaxSpec] {
	return rapid.Custom(func(t *rapid.T) MaxSpec {
		switch k := rapid.IntRange(0, 9).Draw(t, "max kind"); {
		case k < 6:
			return MaxSpec{Recs: rapid.IntRange(0, 6).Draw(t, "recs"), Delta: int32(rapid.IntRange(-1, 1).Draw(t, "delta"))}
		case k < 7:
			return MaxSpec{Recs: rapid.IntRange(0, 30).Draw(t, "recs"), Delta: int32(rapid.IntRange(-40, 40).Draw(t, "delta"))}
		case k < 9:
			return MaxSpec{Abs: true, Delta: int32(rapid.IntRange(0, 400).Draw(t, "abs"))}
		default:
			return MaxSpec{Abs: true, Delta: rapid.SampledFrom([]int32{0, 1, -1, 33, 34, 35, 4096, 65536, 1 << 20, 1<<31 - 1, -1 << 31}).Draw(t, "abs")}
		}
	})
}
