package props

const histRule = "random history of session openings, sends, deliveries in any order, losses, repetitions, key rotations and reloads between 2-3 users, judged step by step against an exact model of what the receiver must decrypt; "

func init() {
	nt := func(w *world) bool { return w.nRecv >= 3 && w.nReorder > 0 && (w.nOldChain+w.nSkippedUse+w.nArch) > 0 }
	worldCheck("C01", "histories", 9000, 200000, histRule+"non-trivial: at least 3 decrypted, some out of order, at least one by a kept key, an older chain or an archived session", nt, "mixed", "mixed", "cross", "pong", "skips", "trust")
	worldCheck("C01", "sessions", 400, 12000, histRule+"many sessions, beyond the number of archived ones; non-trivial as above", nt, "fresh")
}
