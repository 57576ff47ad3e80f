package main

import (
	"os"
	"runtime/pprof"
)

var cpuF *os.File

func startCPU(f string) {
	cpuF, _ = os.Create(f)
	pprof.StartCPUProfile(cpuF)
}
func stopCPU() {
	if cpuF != nil {
		pprof.StopCPUProfile()
		cpuF.Close()
	}
}
