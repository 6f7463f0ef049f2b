//go:build verifsched

package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"stldiceverif/sched/drv"
)

// The scenarios below are programs with known behaviours, to measure the explorer itself.
func selftest(name string) *drv.Scenario {
	switch name {
	case "self-lost-update": // needs one preemption between two critical sections
		return &drv.Scenario{Body: func() (string, error) {
			var mu sync.Mutex
			var wg sync.WaitGroup
			n := 0
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					mu.Lock()
					v := n
					mu.Unlock()
					mu.Lock()
					n = v + 1
					mu.Unlock()
				}()
			}
			wg.Wait()
			if n != 2 {
				return "", fmt.Errorf("lost update")
			}
			return fmt.Sprint(n), nil
		}}
	case "self-deadlock":
		return &drv.Scenario{Body: func() (string, error) {
			var a, b sync.Mutex
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() }()
			go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() }()
			wg.Wait()
			return "ok", nil
		}}
	case "self-race":
		return &drv.Scenario{Body: func() (string, error) {
			var wg sync.WaitGroup
			n := 0
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() { n++; wg.Done() }()
			}
			wg.Wait()
			return fmt.Sprint(n), nil
		}}
	case "self-orders": // 3 goroutines, all orders
		return &drv.Scenario{Body: func() (string, error) {
			ch := make(chan int, 3)
			for i := 0; i < 3; i++ {
				go func() { ch <- i }()
			}
			return fmt.Sprint(<-ch, <-ch, <-ch), nil
		}}
	case "self-select":
		return &drv.Scenario{Body: func() (string, error) {
			a, b := make(chan int, 1), make(chan int, 1)
			a <- 1
			b <- 2
			select {
			case v := <-a:
				return fmt.Sprint("a", v), nil
			case v := <-b:
				return fmt.Sprint("b", v), nil
			}
		}}
	case "self-map":
		return &drv.Scenario{Config: runtime.VerifConfig{MaxMap: 4}, Body: func() (string, error) {
			m := map[string]int{"a": 1, "b": 2, "c": 3}
			delete(m, "b")
			m["d"] = 4
			for k := range m {
				return k, nil
			}
			return "", nil
		}}
	case "self-time":
		return &drv.Scenario{Config: runtime.VerifConfig{Clock: true}, Body: func() (string, error) {
			t0 := time.Now()
			var mu sync.Mutex
			s := ""
			done := make(chan bool)
			go func() {
				time.Sleep(time.Hour)
				mu.Lock()
				s += "a"
				mu.Unlock()
				done <- true
			}()
			mu.Lock()
			s += "b"
			mu.Unlock()
			mu.Lock()
			s += "b"
			mu.Unlock()
			<-done
			if d := time.Since(t0); d < time.Hour || d > time.Hour+time.Second {
				return "", fmt.Errorf("%v passed", d)
			}
			return s, nil
		}}
	case "self-atomic": // a check and an increment that are not one operation
		return &drv.Scenario{Body: func() (string, error) {
			var n int32
			var wg sync.WaitGroup
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if atomic.LoadInt32(&n) == 0 {
						atomic.AddInt32(&n, 1)
					}
				}()
			}
			wg.Wait()
			return fmt.Sprint(atomic.LoadInt32(&n)), nil
		}}
	case "self-poll":
		return &drv.Scenario{Body: func() (string, error) {
			for {
				time.Sleep(time.Second)
			}
		}}
	}
	return nil
}
