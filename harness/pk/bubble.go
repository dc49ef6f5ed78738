package pk

import (
	"fmt"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
)

// Deadlock is returned by Bubble when every goroutine of the case is blocked
// for good.
type Deadlock struct{ Msg string }

func (d *Deadlock) Error() string { return "deadlock: " + d.Msg }

// Bubble runs f in virtual time. It returns f's error, or a *Deadlock when
// all goroutines of the bubble are durably blocked (f itself, or goroutines
// left behind when f has returned).
func Bubble(t *testing.T, f func() error) (err error) {
	var ferr error
	var finished bool
	var inner interface{}
	var innerStack string
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.Contains(msg, "deadlock") || strings.Contains(msg, "durably blocked") || strings.Contains(msg, "blocked goroutines") {
				if ferr != nil {
					err = fmt.Errorf("%v\n(then: %s)", ferr, msg)
					return
				}
				st := make([]byte, 1<<20)
				st = st[:runtime.Stack(st, true)]
				_ = finished
				err = &Deadlock{msg + "\n" + bubbleStacks(string(st))}
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				inner = r
				st := make([]byte, 16384)
				innerStack = string(st[:runtime.Stack(st, false)])
			}
		}()
		ferr = f()
		finished = true
	})
	if inner != nil {
		if _, ok := inner.(infra); ok {
			panic(inner)
		}
		if underTest(innerStack) {
			return fmt.Errorf("panic: %v\n%s", inner, innerStack)
		}
		panic(infra{fmt.Sprintf("harness panic: %v\n%s", inner, innerStack)})
	}
	return ferr
}

// bubbleStacks keeps the goroutines that are stuck in the code under test.
func bubbleStacks(all string) string {
	var keep []string
	for _, g := range strings.Split(all, "\n\n") {
		if strings.Contains(g, "synctest bubble") && strings.Contains(g, "aptutil") {
			keep = append(keep, g)
		}
		if len(keep) >= 4 {
			break
		}
	}
	return clip(strings.Join(keep, "\n\n"), 6000)
}
