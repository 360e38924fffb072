package world

import (
	"encoding/json"
	"os"
	"syscall"
	"testing"

	"verif/simrt"
)

// TestWorker is the entry point of worker processes (see cmd/check).
func TestWorker(t *testing.T) {
	p := os.Getenv("SIM_JOB")
	if p == "" {
		t.Skip("no job")
	}
	if !simrt.ResetState() {
		// package variables that cannot be initialised twice
		err := syscall.Exec(os.Args[0], os.Args, append(os.Environ(), "SIM_NORESET=1"))
		t.Fatal(err)
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	WriteResult(&job, Work(t, &job))
}
