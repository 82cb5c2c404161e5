package main

// tasksFor lists the tasks which decide a property.
func tasksFor(prop, tier string) []Task {
	var ts []Task
	add := func(xs []xp, mk func() *Mon) { ts = append(ts, tasksOf(xs, mk)...) }
	switch prop {
	case "C01":
		add(ordX(tier, 1), monMap)
		add(realX(tier, true, 1), monMap)
		add([]xp{endlessX(tier, true, 70000)}, monMap)
	case "C02":
		mk := func() *Mon { return monRange(15) }
		add(ordX(tier, 3), mk)
		add(realX(tier, true, 3), mk)
		add([]xp{endlessX(tier, true, 70000)}, mk)
	case "C03":
		mk := func() *Mon { return monIter(false, 10) }
		add(ordX(tier, 3), mk)
		add(realX(tier, true, 3), mk)
		ts = append(ts, manyIterators(tier)...)
	case "C04":
		add(ordX(tier, 1), monStruct)
		add(realX(tier, true, 1), monStruct)
		add([]xp{endlessX(tier, true, 70000)}, monStruct)
	case "C05":
		add(ordX(tier, 3), monReopen)
		add(realX(tier, true, 3), monReopen)
		add([]xp{endlessX(tier, true, 70000)}, monReopen)
		ts = append(ts, manySessions(tier, true)...)
	case "C06":
		add(dictX(tier, 0), monMap)
		add(realX(tier, false, 1), monMap)
		add([]xp{endlessX(tier, false, 70000)}, monMap)
	case "C07":
		mk := func() *Mon { return monScan(4) }
		add(dictX(tier, 1), mk)
		add(realX(tier, false, 1), mk)
		ts = append(ts, manyCursors(tier)...)
	case "C08":
		add(dictX(tier, 0), monTable)
		add(realX(tier, false, 1), monTable)
		add([]xp{endlessX(tier, false, 70000)}, monTable)
	case "C09":
		add(dictX(tier, 2), monReopen)
		add(realX(tier, false, 2), monReopen)
		add([]xp{endlessX(tier, false, 70000)}, monReopen)
		ts = append(ts, manySessions(tier, false)...)
	case "C10":
		ts = append(ts, lengthTasks(tier)...)
		ts = append(ts, gibTasks("ordered value", "ordered item", "hash item")...)
	case "C11":
		add(ordX(tier, 3), monSpace)
		add(dictX(tier, 2), monSpace)
		add(realX(tier, true, 3), monSpace)
		add(realX(tier, false, 2), monSpace)
		add([]xp{endlessX(tier, true, 70000), endlessX(tier, false, 70000)}, monSpace)
	case "C12":
		add(ordX(tier, 1), monStats)
		add(dictX(tier, 1), monStats)
		ts = append(ts, gibTasks("ordered")...)
		if tier == "thorough" {
			ts = append(ts, gibTasks("hash")...)
		}
		add(realX(tier, true, 2), monStats)
		add(realX(tier, false, 2), monStats)
		add([]xp{endlessX(tier, true, 70000), endlessX(tier, false, 70000)}, monStats)
	case "C13":
		add(ordX(tier, 2), monAlias)
		add(dictX(tier, 2), monAlias)
		add(realX(tier, true, 2), monAlias)
		add(realX(tier, false, 2), monAlias)
		ts = append(ts, manyResults(tier)...)
	case "C14":
		add(ordX(tier, 3), monQuiet)
		add(dictX(tier, 2), monQuiet)
		add(realX(tier, true, 3), monQuiet)
		add(realX(tier, false, 2), monQuiet)
		ts = append(ts, readerTasks(tier)...)
		ts = append(ts, manyReads(tier)...)
	case "C15":
		ts = append(ts, envTasks(tier)...)
	case "C16":
		ts = append(ts, sharedTasks(tier)...)
	case "C17":
		ts = append(ts, separateTasks(tier)...)
		ts = append(ts, crowdTasks(tier)...)
	case "C18":
		ts = append(ts, openTasks(tier)...)
	case "C19":
		ts = append(ts, markerTasks(tier)...)
	case "C21":
		mk := func() *Mon { return monDump(60) }
		add(ordX(tier, 3), mk)
		add(realX(tier, true, 3), mk)
		ts = append(ts, dumpTasks(tier)...)
	case "C20":
		add(ordX(tier, 2), monLayout)
		add(dictX(tier, 2), monLayout)
		add(realX(tier, true, 2), monLayout)
		add(realX(tier, false, 2), monLayout)
		ts = append(ts, goldenTasks(tier)...)
		ts = append(ts, longLayout(tier, true)...)
		ts = append(ts, longLayout(tier, false)...)
		add([]xp{endlessX(tier, true, 70000), endlessX(tier, false, 70000)}, monLayout)
	case "C22":
		add(ordX(tier, 2), monWork)
		add(dictX(tier, 2), monWork)
		add([]xp{endlessX(tier, true, 70000), endlessX(tier, false, 70000)}, monWork)
	}
	// names must be unique
	seen := map[string]int{}
	for i := range ts {
		if seen[ts[i].Name]++; seen[ts[i].Name] > 1 {
			ts[i].Name += "'"
		}
	}
	return ts
}

// assumptions lists what a verdict rests on.
func assumptions(prop string) []string {
	as := []string{
		"the code under test runs unmodified; only package fsm is replaced in the tasks marked \"model\": spaces may move, be recycled or carry any bytes as its documentation allows, misuse of it is an error",
		"the verdict holds within the bounds listed for every task; in the quick tier grids are thinned out as stated there",
		"the reference model and the independent reader and writer of the layout in mc/ are right; they are bound to the code by every execution, in which both must agree, and to the real storage by the tasks marked \"real\"",
		"a process crash while a file is open is not covered: the library promises nothing for it",
	}
	switch prop {
	case "C14":
		as = append(as, "concurrent readers: goroutines are switched at calls of the storage; memory accesses between two such calls are covered by the race detector only for the schedules run on the real storage")
	case "C17":
		as = append(as, "goroutines are switched at calls of the storage; what happens between two such calls is atomic in the model and covered by the race detector for the schedules run on the real storage")
	case "C18":
		as = append(as, "fault cases are files, directories and permissions which can be made in a scratch directory without privileges")
	case "C19":
		as = append(as, "Set and SetIfNotExists with a marker on an empty dictionary, and slices into the markers, are unspecified and not tried")
	}
	return as
}
