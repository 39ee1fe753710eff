//go:build !race

package mon

import "github.com/gostdlib/concurrency/zzv"

func hit(i int) uint32 { return zzv.Hits[i].Load() }
func resetSeq()        { zzv.Seq.Store(1469598103934665603) }
func seqVal() uint64   { return zzv.Seq.Load() }

func totalHits() int64 {
	var n int64
	for i := range zzv.Hits {
		n += int64(zzv.Hits[i].Load())
	}
	return n
}
