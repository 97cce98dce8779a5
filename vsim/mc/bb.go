package main

// The checks decided by running the real binary; their reports are merged from
// the black-box explorer in bb/.
func init() {
	none := func(tier string) []Job { return nil }
	env := []string{
		"the file system keeps what a finished command or a finished write with sync wrote (kernel crashes are covered for the sign state by C02)",
		"a failing system call fails without effect",
	}
	register(&Check{ID: "C13", Level: "model_checking", Jobs: none, Assumptions: append([]string{"process lives end at the points listed in the jobs (kill at system calls through strace, SIGKILL between requests), not at arbitrary instructions"}, env...)})
	register(&Check{ID: "C14", Level: "model_checking", Jobs: none, Assumptions: append([]string{"arguments and configuration files come from the reported menus"}, env...)})
	register(&Check{ID: "C15", Level: "model_checking", Jobs: none, Assumptions: append([]string{"heights and file contents come from the reported menus"}, env...)})
	register(&Check{ID: "C16", Level: "model_checking", Jobs: none, Assumptions: append([]string{"damage comes from the reported menus: truncations, lost and altered fields, mismatched keys and states"}, env...)})
	register(&Check{ID: "C21", Level: "model_checking", Jobs: none, Assumptions: append([]string{"keys and prefixes come from the reported menus"}, env...)})
	register(&Check{ID: "C22", Level: "model_checking", Jobs: none, Assumptions: append([]string{"the schedules inside the processes are the operating system's: the histories are exhaustive, the interleavings within a step are not"}, env...)})
}
