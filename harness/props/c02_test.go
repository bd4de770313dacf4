package props

func init() {
	worldCheckPost("C02", "replays", 6000, 150000,
		histRule+"during the history and again at its end messages presented before are presented again: from their bytes, as the original value, the inner message alone, and plain messages wrapped into an establishing one; non-trivial: at least 3 decrypted messages and 3 repetitions refused as duplicates",
		func(w *world) bool { return w.nRecv >= 3 && w.nDup >= 3 },
		func(w *world) *worldErr { return w.redeliver(24) },
		"again", "again", "mixed", "cross", "pong", "trust", "skips")
	worldCheckPost("C02", "sessions", 300, 8000,
		histRule+"many sessions, up to and beyond the number of archived ones, then everything is presented again; non-trivial as above",
		func(w *world) bool { return w.nRecv >= 3 && w.nDup >= 3 },
		func(w *world) *worldErr { return w.redeliver(60) },
		"fresh")
}
