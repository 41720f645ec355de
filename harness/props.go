package main

func initProps() {
	initHost()
	initProgProps()
	initReadProps()
	initNumProps()
	initEqProps()
	initHistProps()
	initMapProps()
	initStrProps()
	initObjProps()
	initFmtProps()
	initStreamProps()
	initCrashProps()
	initCancelProps()
	initInstProps()
	initConvProps()
	initExtProps()
	initCliProps()
	initTableProps()
	initTailProps()
	initCondProps()
	initPlaceProps()
	initMacroProps()
	initCancelCleanupProps()
	initFirstProps()
	initFocusProps()
	initFocus2Props()
	initHandlerNest()
	initEnvProps()
	initDetProps()
	initLookProps()
	initCmdProps()
	initDeepProps()
}
