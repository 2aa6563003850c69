package simrt

import _ "unsafe"

//go:linkname rtInit runtime.simInit
func rtInit(seed uint64)

//go:linkname rtSetNow runtime.simSetNow
func rtSetNow(ns int64)

//go:linkname rtSpawn runtime.simSpawn
func rtSpawn(id uint64, node int32)

//go:linkname rtPop runtime.simPop
func rtPop() (gp uintptr, id uint64, node int32, startpc uintptr)

//go:linkname rtStep runtime.simStep
func rtStep(gp uintptr) int

//go:linkname rtWaitReason runtime.simWaitReason
func rtWaitReason(gp uintptr) string

//go:linkname rtSelf runtime.simSelf
func rtSelf() (id uint64, node int32)

//go:linkname rtYield runtime.simYield
func rtYield()

//go:linkname rtPanicked runtime.simPanicked
func rtPanicked() (gp uintptr, kind int32, msg string, pcs []uintptr)

//go:linkname rtKillAll runtime.simKillAll
func rtKillAll() int

//go:linkname rtDie runtime.simDie
func rtDie(kind int32, msg string)

//go:linkname rtGPtr runtime.simGPtr
func rtGPtr() uintptr
