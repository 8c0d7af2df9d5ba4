package ustack

import (
	"fmt"
	"os"
	"testing"
	"testing/synctest"
	"time"
)

func TestZZReplay(t *testing.T) {
	zzLoadReplay(os.Getenv("ZZ_REPLAY"))
	f := zzHarnesses[zzR.Harness]
	if f == nil {
		zzDie(5, "ZZ-ERROR no harness "+zzR.Harness)
	}
	if !zzR.Con {
		f()
		zzDie(0, "ZZ-OK")
	}
	start := time.Now()
	go func() {
		for time.Since(start) < 60*time.Second {
			time.Sleep(time.Second)
		}
		zzDie(6, "ZZ-HANG")
	}()
	synctest.Test(t, func(t *testing.T) {
		zzControl(f, synctest.Wait)
		fmt.Println("ZZ-OK")
		os.Exit(0)
	})
}
