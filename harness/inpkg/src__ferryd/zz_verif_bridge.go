package main

import (
	"github.com/getsolus/ferryd/src/vharness"
	"github.com/getsolus/ferryd/src/vharness/vrun"
)

func init() {
	vharness.NewDaemon = func(base, sock string) (vharness.Daemon, error) {
		baseDir, socketPath, backgroundJobCount = base, sock, 2
		s, err := NewServer()
		if err != nil {
			return nil, err
		}
		return s, nil
	}
	vharness.NewLock = func(path string) (vharness.Lock, error) {
		l, err := NewLockFile(path)
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	vharness.ErrOwned = ErrOwnedLockFile
	vrun.Maybe(vharness.All)
}

// The harnesses are found here by the engine.

func HLock()      { vharness.HLock() }
func HLockRace()  { vharness.HLockRace() }
func HLockClose() { vharness.HLockClose() }
