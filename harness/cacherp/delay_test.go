package cacherp

import (
	"os"
	"runtime"
	"time"
)

// delayHook yields or sleeps around file-system calls by a fixed hash of the
// operation; it keeps no state, so it adds no ordering between goroutines.
func delayHook(seed int) func(*os.VerifOp) (func(error), error) {
	return func(o *os.VerifOp) (func(error), error) {
		h := uint32(2166136261 + seed*7919)
		for i := 0; i < len(o.Path); i++ {
			h = (h ^ uint32(o.Path[i])) * 16777619
		}
		for i := 0; i < len(o.Kind); i++ {
			h = (h ^ uint32(o.Kind[i])) * 16777619
		}
		nap := func(h uint32) {
			switch h % 4 {
			case 0:
				time.Sleep(time.Duration(h>>8%200) * time.Microsecond)
			case 1, 2:
				for i := uint32(0); i < h>>8%6; i++ {
					runtime.Gosched()
				}
			}
		}
		nap(h >> 3)
		return func(error) { nap(h >> 7) }, nil
	}
}
