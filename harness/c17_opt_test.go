package lens

func init() {
	c17Finish = func(m *testMonitor) (TestResult, []string) {
		r := m.makeTestResult(&TestFunction{}, false)
		var reached []string
		for _, p := range m.getModuleChangesReached() {
			reached = append(reached, *p)
		}
		return r, reached
	}
}
