//go:build race

package mon

import "github.com/gostdlib/concurrency/zzv"

//go:norace
func hit(i int) uint32 { return zzv.Hits[i] }
func resetSeq()        {}

//go:norace
func seqVal() uint64 {
	var h uint64 = 1469598103934665603
	for i := range zzv.Hits {
		if zzv.Hits[i] != 0 {
			h = (h ^ uint64(zzv.Hits[i])) * 0x100000001b3
		}
	}
	return h
}

//go:norace
func totalHits() int64 {
	var n int64
	for i := range zzv.Hits {
		n += int64(zzv.Hits[i])
	}
	return n
}
