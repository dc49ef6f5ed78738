package cacherp

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/cybozu-go/aptutil/cacher"
	"github.com/cybozu-go/well"
	"pgregory.net/rapid"

	"verifharness/pk"
)

// CapScenario is a cache directory with sparse files found at the start by a
// service of a certain capacity.
type CapScenario struct {
	Cap   int      // GiB
	Sizes []uint64 // bytes
}

func TestX01_capacity(t *testing.T) {
	pk.Check(t, "X01_capacity", func(t *rapid.T) CapScenario {
		s := CapScenario{Cap: rapid.OneOf(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 16, 7, 9, 31, 100}), rapid.IntRange(1, 200)).Draw(t, "cap")}
		n := rapid.IntRange(1, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			// in sixteenths of the capacity, give or take a byte
			z := uint64(s.Cap) << 30 / 16 * uint64(rapid.IntRange(0, 20).Draw(t, "sixteenths"))
			z += uint64(rapid.IntRange(0, 2).Draw(t, "more"))
			if z > 0 {
				z -= uint64(rapid.IntRange(0, 1).Draw(t, "less"))
			}
			s.Sizes = append(s.Sizes, z)
		}
		return s
	}, func(c *pk.C, s CapScenario) error {
		dir, clean := scratch()
		defer clean()
		d := filepath.Join(dir, "cache", "u")
		if err := os.MkdirAll(d, 0755); err != nil {
			pk.Infra("%v", err)
		}
		var total uint64
		for i, z := range s.Sizes {
			f, err := os.Create(filepath.Join(d, fmt.Sprintf("f%d.cache", i)))
			if err == nil {
				err = f.Truncate(int64(z))
			}
			if err != nil {
				pk.Infra("%v", err)
			}
			f.Close()
			total += z
		}
		well.VerifReset()
		cfg := cacher.NewConfig()
		cfg.MetaDirectory, cfg.CacheDirectory, cfg.CacheCapacity = filepath.Join(dir, "meta"), filepath.Join(dir, "cache"), s.Cap
		if _, err := cacher.NewCacher(cfg); err != nil {
			return fmt.Errorf("NewCacher: %v", err)
		}
		well.Cancel(nil)
		well.Wait()
		var left, biggest uint64
		n := 0
		for i, z := range s.Sizes {
			fi, err := os.Stat(filepath.Join(d, fmt.Sprintf("f%d.cache", i)))
			switch {
			case err == nil && uint64(fi.Size()) == z:
				left += z
				n++
			case err == nil:
				return fmt.Errorf("f%d has now %d bytes", i, fi.Size())
			case z > biggest:
				biggest = z
			}
		}
		capacity := uint64(s.Cap) << 30
		if left > capacity && n > 1 {
			return fmt.Errorf("cache_capacity = %d: %d bytes in %d files are kept", s.Cap, left, n)
		}
		if n < len(s.Sizes) && left+biggest <= capacity {
			return fmt.Errorf("cache_capacity = %d: %d of %d files are evicted although %d more bytes fit beside %d", s.Cap, len(s.Sizes)-n, len(s.Sizes), biggest, left)
		}
		c.ClassIf(total > capacity, "too much")
		c.ClassIf(total == capacity, "exactly full")
		c.NonTrivialIf(total > capacity || total == capacity)
		return nil
	})
}

// periodsGen draws unusual intervals and periods, and waits around them.
func periodsGen(t *rapid.T) Scenario {
	s := Scenario{W: worldGen(1, 1).Draw(t, "world")}
	s.Par.Check = rapid.SampledFrom([]int{1, 2, 7, 59, 60, 61, 600, 601, 3600, 86400}).Draw(t, "check")
	var l []int
	for _, p := range []int{0, 1, 2, 3, 4, 30, 59, 60, 61, 90, 599, 600, 601, 3599, 3600, 7200, 86400} {
		if p <= 20*s.Par.Check {
			l = append(l, p)
		}
	}
	s.Par.Period = rapid.SampledFrom(l).Draw(t, "period")
	s.Par.MaxConns = rapid.SampledFrom([]int{10, 1, 0, 1000}).Draw(t, "conns")
	wait := rapid.Custom(func(t *rapid.T) int {
		c, p := s.Par.Check*1000, s.Par.Period*1000
		return max(0, rapid.SampledFrom([]int{0, p - 60, p / 2, p + 1, p * 9 / 10, c - 60, c + 1, c / 2, 2 * c, 5}).Draw(t, "dt"))
	})
	op := rapid.Custom(func(t *rapid.T) Op {
		o := Op{K: rapid.SampledFrom([]string{"get", "get", "get", "get", "fault", "switch"}).Draw(t, "k"), F: rapid.SampledFrom([]int{fMissing, fRelease, fReadme, fGpg, fA}).Draw(t, "f"), Dt: wait.Draw(t, "dt")}
		switch o.K {
		case "fault":
			o.Kind, o.V = rapid.SampledFrom([]string{"404", "500", "refuse", "trunc", "403"}).Draw(t, "kind"), rapid.IntRange(0, 1).Draw(t, "times")
			o.Dt = 0
		case "switch":
			o.V = rapid.IntRange(0, len(s.W.Vers[0])-1).Draw(t, "v")
		}
		return o
	})
	s.Ops = append([]Op{{K: "get", F: fRelease}}, rapid.SliceOfN(op, 3, 12).Draw(t, "ops")...)
	return s
}

// TestX01_periods: check_interval and cache_period are what they are set to.
func TestX01_periods(t *testing.T) {
	pk.Check(t, "X01_periods", periodsGen, func(c *pk.C, sc Scenario) error {
		var st seqStats
		mis, err := runSeq(t, sc, &st)
		c.ClassIf(st.failures > 0, "failure")
		c.ClassIf(st.remembered > 0, "remembered failure")
		c.ClassIf(st.refresh > 0, "refresh")
		c.ClassIf(sc.Par.Period == 0 && st.failures > 0, "nothing remembered")
		c.NonTrivialIf(st.failures > 0 || st.refresh > 0)
		if mis != nil {
			if mis.has("C05") || mis.has("C02") || mis.has("X01") {
				return fmt.Errorf("check_interval = %d, cache_period = %d: %s", sc.Par.Check, sc.Par.Period, mis.text)
			}
			return nil
		}
		if _, ok := err.(*pk.Deadlock); ok {
			return nil
		}
		return err
	})
}
